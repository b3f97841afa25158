// C01: integers are written as their canonical base-10 numeral.

// value of a digit string
rec fn fuel=24 decv(d seq) int = ite(len(d) == 0, 0, 10*decv(d[:len(d)-1]) + d[len(d)-1] - '0')
// d is the canonical numeral of n >= 0
fn isdec(d seq, n int) bool = len(d) >= 1 && forall(k, 0, len(d), '0' <= d[k] && d[k] <= '9') && (len(d) == 1 || d[0] != '0') && decv(d) == n
fn isint(d seq, n int) bool = ite(n < 0, len(d) >= 2 && d[0] == '-' && isdec(d[1:], -n), isdec(d, n))

rec fn numeral(d seq, n int) bool = isint(d, n)
// number of digits
rec fn ndig(n int) int = ite(n < 10, 1, ite(n < 100, 2, ite(n < 1000, 3, ite(n < 10000, 4, ite(n < 100000, 5, ite(n < 1000000, 6, ite(n < 10000000, 7, ite(n < 100000000, 8, ite(n < 1000000000, 9, ite(n < 10000000000, 10, ite(n < 100000000000, 11, ite(n < 1000000000000, 12, ite(n < 10000000000000, 13, ite(n < 100000000000000, 14, ite(n < 1000000000000000, 15, ite(n < 10000000000000000, 16, ite(n < 100000000000000000, 17, ite(n < 1000000000000000000, 18, ite(n < 10000000000000000000, 19, 20)))))))))))))))))))

table plz/msgfmt/jsonfmt.digits(i, v) C01: v >= 0 && v / 65536 % 256 == '0' + i / 100 && v / 256 % 256 == '0' + i / 10 % 10 && v % 256 == '0' + i % 10 && v / 16777216 == ite(i < 10, 2, ite(i < 100, 1, 0))

contract plz/msgfmt/jsonfmt.WriteUint8(space, val) r
prop C01
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], val)
end
contract plz/msgfmt/jsonfmt.WriteUint16(space, val) r
prop C01
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], val)
end
contract plz/msgfmt/jsonfmt.WriteUint32(space, val) r
prop C01
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], val)
end
contract plz/msgfmt/jsonfmt.WriteUint64(space, val) r
prop C01
ensures prefix: r[:len(space)] == space
proves numeral: isint(r[len(space):], val)
ensures length: len(r) == len(space) + ndig(val)
ensures numeral2: numeral(r[len(space):], val)
ensures small: implies(val < 1000000, r[len(r)-1] == '0' + val % 10 && implies(val >= 10, r[len(r)-2] == '0' + val / 10 % 10) && implies(val >= 100, r[len(r)-3] == '0' + val / 100 % 10) && implies(val >= 1000, r[len(r)-4] == '0' + val / 1000 % 10) && implies(val >= 10000, r[len(r)-5] == '0' + val / 10000 % 10) && implies(val >= 100000, r[len(r)-6] == '0' + val / 100000 % 10))
end
contract plz/msgfmt/jsonfmt.WriteInt8(space, val) r
prop C01
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], val)
end
contract plz/msgfmt/jsonfmt.WriteInt16(space, val) r
prop C01
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], val)
end
contract plz/msgfmt/jsonfmt.WriteInt32(space, val) r
prop C01
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], val)
end
contract plz/msgfmt/jsonfmt.WriteInt64(space, val) r
prop C01
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], val)
end
