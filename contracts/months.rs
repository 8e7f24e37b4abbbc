include months_spec.rs
include months_ops.rs
pub proof fn plus_day(d: Date, a: int)
    ensures plus(d, a) matches Some(e) ==> {
        let k = 12 * year(d) + month(d) - 1 + a;
        valid(k / 12, k % 12 + 1, min(day(d), dim(k / 12, k % 12 + 1))) && e.n() == on(k / 12, k % 12 + 1, day(d))
    }
{
    fields(d);
    let k = 12 * year(d) + month(d) - 1 + a;
    if in_range(k / 12) { dated_number(k / 12, k % 12 + 1, min(day(d), dim(k / 12, k % 12 + 1))); }
}
pub proof fn plus_zero(d: Date) ensures plus(d, 0) == Some(d) {
    fields(d);
    plus_day(d, 0);
    same_day_number(plus(d, 0)->0, d);
}
pub proof fn plus_later(d: Date, a: int, b: int)
    requires a < b, plus(d, a) is Some, plus(d, b) is Some
    ensures plus(d, a)->0.n() < plus(d, b)->0.n()
{
    plus_day(d, a);
    plus_day(d, b);
    let k = 12 * year(d) + month(d) - 1 + a;
    let l = 12 * year(d) + month(d) - 1 + b;
    serial_rises(k / 12, k % 12 + 1, min(day(d), dim(k / 12, k % 12 + 1)), l / 12, l % 12 + 1, min(day(d), dim(l / 12, l % 12 + 1)));
}
pub proof fn plus_range(d: Date, a: int) requires plus(d, a) is Some ensures -7_000_000 < a < 7_000_000 { fields(d); }
