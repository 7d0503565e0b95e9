pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn year_days(y: int) -> int { if leap(y) { 366 } else { 365 } }
/// days from 1970-01-01 to the first day of year y (Gregorian calendar)
pub open spec fn year_start(y: int) -> int decreases y - 1970 { if y <= 1970 { 0 } else { year_start(y - 1) + year_days(y - 1) } }

proof fn lemma_quad(q: int)
    requires 0 <= q <= 25
    ensures year_start(2000 + 4 * q) == 10957 + 1461 * q
    decreases q
{
    if q == 0 { assert(year_start(2000) == 10957) by(compute); }
    else {
        lemma_quad(q - 1);
        let y = 2000 + 4 * (q - 1);
        assert(year_start(y + 4) == year_start(y + 3) + year_days(y + 3));
        assert(year_start(y + 3) == year_start(y + 2) + year_days(y + 2));
        assert(year_start(y + 2) == year_start(y + 1) + year_days(y + 1));
        assert(year_start(y + 1) == year_start(y) + year_days(y));
        assert(leap(y)) by { if y % 100 == 0 { assert(y == 2000); } }
        assert(!leap(y + 1) && !leap(y + 2) && !leap(y + 3));
    }
}
//@const elusiv-warden-network/src/processor/utils.rs TWO_K_EPOCH
//@const elusiv-warden-network/src/processor/utils.rs TWO_K_100_EPOCH
//@const elusiv-warden-network/src/processor/utils.rs DAYS_PER_QUADRENNIAL
fn bool_u64(b: bool) -> (r: u64) ensures r == (if b { 1u64 } else { 0u64 }) { if b { 1 } else { 0 } }

//@fn elusiv-warden-network/src/processor/utils.rs unix_timestamp_to_day_and_year
//@ret r
//@rw \(\s*(\w+)\s*\.\.\s*(\w+)\s*\)\.contains\(&(\w+)\) => (\1 <= \3 && \3 < \2)
//@rw u64::from\( => bool_u64(
//@desugar 1
//@spec
    ensures
        r is None <==> !(year_start(2000) * 86400 <= timestamp < year_start(2100) * 86400),
        r matches Some((day, year)) ==> 2000 <= year < 2100 && 1 <= day <= year_days(year as int)
            && year_start(year as int) + day - 1 == timestamp as int / 86400,
//@top
    proof {
        lemma_quad(0); lemma_quad(25);
        assert(timestamp as int / 86400 == (timestamp as int - 946684800) / 86400 + 10957);
    }
//@loop 1
    invariant_except_break
        y_next as int - years == year - years,
    invariant
        days_since_2k < 36525, years == days_since_2k / 1461 * 4, years <= 96, years % 4 == 0,
        years <= year <= years + 3, 
        years <= y_next <= years + 3, y_end == years + 3,
        year_start(2000 + year) + days == 10957 + days_since_2k,
        (year == years + 3) ==> days < 365, days < 1461 - (if year == years { 0int } else { 366 + 365 * (year - years - 1) }),
    ensures
        days < year_days(2000 + year),
    decreases y_end - y_next
//@beforeloop 1
    proof { lemma_quad(days_since_2k as int / 1461); }
//@looptop 1
    proof {
        assert(year_start(2000 + y + 1) == year_start(2000 + y as int) + year_days(2000 + y as int));
        assert(leap(2000 + y as int) <==> y % 4 == 0);
    }
//@before Some\(
    proof { }
//@end
