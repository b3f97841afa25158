// C04: floats are written as the decimal number of the value rounded to 6 fractional digits
fn fabs(x real) real = ite(x < 0.0, -x, x)
// of a float and of its negation alike
fn absnan(x real) bool
fn absinf(x real) bool
fn isnan(x real) bool = absnan(fabs(x))
fn isinf(x real, sign int) bool = absinf(fabs(x)) && (sign == 0 || (sign > 0 && x > 0.0) || (sign < 0 && x < 0.0))
fn fmtfloat(x real, f int, prec int, bits int) seq
contract math.IsNaN(f) r
trusted
ensures r == isnan(f)
end
contract math.IsInf(f, sign) r
trusted
ensures r == isinf(f, sign)
end
contract math.Abs(x) r
trusted
ensures r == fabs(x)
end
contract strconv.FormatFloat(f, fmt, prec, bitSize) r
trusted the shortest numeral of a float
ensures r == fmtfloat(f, fmt, prec, bitSize) && len(r) > 0
end
fn p10(k int) int = ite(k == 0, 1, ite(k == 1, 10, ite(k == 2, 100, ite(k == 3, 1000, ite(k == 4, 10000, 100000)))))
fn nonum(x real) bool = isnan(x) || isinf(x, 0)
fn scaled(x real) int = trunc(fl64(fl64(fabs(x) * 1000000.0) + 0.5))

fn dig(b int) bool = '0' <= b && b <= '9'
fn neg(x real) int = ite(x < 0.0, 1, 0)

// the n fraction digits r[k+1:k+1+n] are the first ones of the six digits of f, which are all zero after them
fn fracdig(r seq, k int, f int) bool = implies(k + 1 < len(r), r[k+1] == '0' + f / 100000) && implies(k + 2 < len(r), r[k+2] == '0' + f / 10000 % 10) && implies(k + 3 < len(r), r[k+3] == '0' + f / 1000 % 10) && implies(k + 4 < len(r), r[k+4] == '0' + f / 100 % 10) && implies(k + 5 < len(r), r[k+5] == '0' + f / 10 % 10) && implies(k + 6 < len(r), r[k+6] == '0' + f % 10)
fn fracrest(n int, f int) bool = 1 <= n && n <= 6 && implies(n == 1, f % 100000 == 0) && implies(n == 2, f % 10000 == 0) && implies(n == 3, f % 1000 == 0) && implies(n == 4, f % 100 == 0) && implies(n == 5, f % 10 == 0)
// the two notations denote the same number
fn isfmt(r seq, p seq, x real, bits int) bool = r == cat(p, fmtfloat(x, 'f', -1, bits)) || r == cat(p, fmtfloat(x, 'e', -1, bits))
contract plz/msgfmt/jsonfmt.WriteFloat64(space, val) r
prop C04
ensures null: implies(nonum(val), r == cat(space, "null"))
ensures number: implies(not(nonum(val)), isfmt(r, space, val, 64))
end
contract plz/msgfmt/jsonfmt.WriteFloat32(space, val) r
prop C04
ensures null: implies(nonum(val), r == cat(space, "null"))
ensures number: implies(not(nonum(val)), isfmt(r, space, val, 32))
end
contract plz/msgfmt/jsonfmt.WriteFloat64Lossy(space, val) r
prop C04
cases val < 0.0
cases scaled(val) % 1000000 < 1000
let L: scaled(val)
let F: scaled(val) % 1000000
let q: len(space) + neg(val)
let k: q + ndig(L / 1000000)
ensures null: implies(nonum(val), r == cat(space, "null"))
ensures large: implies(not(nonum(val)) && fabs(val) > 83886080.0, isfmt(r, ite(val < 0.0, cat(space, "-"), space), fabs(val), 64))
ensures prefix: r[:len(space)] == space && implies(val < 0.0 && not(nonum(val)), r[len(space)] == '-')
ensures int: implies(not(nonum(val)) && fabs(val) <= 83886079.0, k <= len(r) && numeral(r[q:k], L / 1000000))
ensures nofrac: implies(not(nonum(val)) && fabs(val) <= 83886079.0 && F == 0, len(r) == k)
ensures dot: implies(not(nonum(val)) && fabs(val) <= 83886079.0 && F != 0, k + 2 <= len(r) && len(r) <= k + 7 && r[k] == '.')
ensures digits: implies(not(nonum(val)) && fabs(val) <= 83886079.0 && F != 0, fracdig(r, k, F))
ensures rest: implies(not(nonum(val)) && fabs(val) <= 83886079.0 && F != 0, fracrest(len(r) - k - 1, F) && r[len(r)-1] != '0')
ensures close: implies(not(nonum(val)) && fabs(val) <= 83886079.0, fabs(val) * 1000000.0 - 0.53 <= L && L <= fabs(val) * 1000000.0 + 0.53)
inv (b=space bytes): len(old(space)) <= len(b) && b[:len(old(space))] == old(space) && implies(val < 0.0, b[len(old(space))] == '-')
inv (b=space bytes): k <= len(b) && numeral(b[q:k], L / 1000000)
inv (b=space bytes, p=p int): len(b) == k + 6 - p && 0 <= p && p <= 5 && b[k] == '.' && F < 10 * p10(p)
inv (b=space bytes): b[k] == '.' && fracrest(len(b) - k - 1, F)
inv (b=space bytes): fracdig(b, k, F)
end
contract plz/msgfmt/jsonfmt.WriteFloat32Lossy(space, val) r
prop C04
cases val < 0.0
cases scaled(val) % 1000000 < 1000
let L: scaled(val)
let F: scaled(val) % 1000000
let q: len(space) + neg(val)
let k: q + ndig(L / 1000000)
ensures null: implies(nonum(val), r == cat(space, "null"))
ensures large: implies(not(nonum(val)) && fabs(val) > 83886080.0, isfmt(r, ite(val < 0.0, cat(space, "-"), space), fabs(val), 32))
ensures prefix: r[:len(space)] == space && implies(val < 0.0 && not(nonum(val)), r[len(space)] == '-')
ensures int: implies(not(nonum(val)) && fabs(val) <= 83886079.0, k <= len(r) && numeral(r[q:k], L / 1000000))
ensures nofrac: implies(not(nonum(val)) && fabs(val) <= 83886079.0 && F == 0, len(r) == k)
ensures dot: implies(not(nonum(val)) && fabs(val) <= 83886079.0 && F != 0, k + 2 <= len(r) && len(r) <= k + 7 && r[k] == '.')
ensures digits: implies(not(nonum(val)) && fabs(val) <= 83886079.0 && F != 0, fracdig(r, k, F))
ensures rest: implies(not(nonum(val)) && fabs(val) <= 83886079.0 && F != 0, fracrest(len(r) - k - 1, F) && r[len(r)-1] != '0')
ensures close: implies(not(nonum(val)) && fabs(val) <= 83886079.0, fabs(val) * 1000000.0 - 0.53 <= L && L <= fabs(val) * 1000000.0 + 0.53)
inv (b=space bytes): len(old(space)) <= len(b) && b[:len(old(space))] == old(space) && implies(val < 0.0, b[len(old(space))] == '-')
inv (b=space bytes): k <= len(b) && numeral(b[q:k], L / 1000000)
inv (b=space bytes, p=p int): len(b) == k + 6 - p && 0 <= p && p <= 5 && b[k] == '.' && F < 10 * p10(p)
inv (b=space bytes): b[k] == '.' && fracrest(len(b) - k - 1, F)
inv (b=space bytes): fracdig(b, k, F)
end
