// The bytes a Source still has to deliver: what is buffered, then what its reader will deliver.
ghost rem seq
fn strm(src any) seq = cat(src.current, rem)
fn errok(src any, e int) bool = src.err == e || ((e == nil || e == global("io.EOF")) && len(strm(src)) == 0 && not(made(src.err)))
fn srcok(src any) bool = len(src.nextList) == 0 && implies(src.reader == nil, len(rem) == 0) && implies(src.err == nil, len(src.current) > 0)

contract (io.Reader).Read(recv, p) n, err
trusted io.Reader: delivers the next bytes of the stream, all of them before the error that ends it
requires len(p) >= 0
modifies elems(p), ghost rem
ensures 0 <= n && n <= len(p) && n <= len(old(rem))
ensures p[:n] == old(rem)[:n]
ensures rem == old(rem)[n:]
ensures implies(err != nil, len(rem) == 0 && not(made(err)))
end

contract (*plz/parse.Source).Consume(src)
prop C08
requires src != nil
requires len(src.nextList) == 0
requires implies(src.reader == nil, len(rem) == 0)
modifies src.current, src.err, elems(src.buf), ghost rem
ensures rest: strm(src) == old(rem)
ensures progress: implies(src.err == nil, len(src.current) > 0)
ensures exhausted: implies(len(src.current) == 0, len(strm(src)) == 0 && src.err != nil)
ensures sticky: errok(src, old(src.err))
inv i1: strm(src) == old(rem)
inv i2: len(src.current) == 0
inv i3: rem == old(rem)
inv (n int): 0 <= n && n <= len(src.buf) && cat(src.buf[:n], rem) == old(rem)
inv (e iface): implies(e != nil, len(rem) == 0 && not(made(e)))
end

contract (*plz/parse.Source).ConsumeN(src, n)
prop C08
requires src != nil
requires srcok(src)
requires n >= 0
modifies src.current, src.err, elems(src.buf), ghost rem
ensures rest: implies(n <= len(old(strm(src))), strm(src) == old(strm(src))[n:])
ensures past: implies(n > len(old(strm(src))), len(strm(src)) == 0)
ensures ok: srcok(src)
ensures sticky: errok(src, old(src.err))
inv (m=n int): 0 <= m && m <= n && n - m <= len(old(strm(src))) && strm(src) == old(strm(src))[n-m:]
inv i4: srcok(src)
inv i5: errok(src, old(src.err))
end


rec fn lack2(s seq, b int, c int, i int) bool = ite(i <= 0, true, lack2(s, b, c, i-1) && s[i-1] != b && s[i-1] != c)

contract plz/parse/read.AnyExcept1(src, space, b1) r
prop C10
let S: strm(src)
let L: len(space)
requires src != nil && srcok(src) && base(space) != base(src.buf)
modifies src.current, src.err, elems(src.buf), ghost rem
ensures prefix: len(r) >= L && len(r)-L <= len(S) && r == cat(old(space), S[:len(r)-L])
ensures clean: lack2(S, b1, b1, len(r)-L)
ensures stop: len(r)-L == len(S) || old(src.err) != nil || S[len(r)-L] == b1
ensures rest: strm(src) == S[len(r)-L:]
ensures ok: srcok(src) && errok(src, old(src.err))
ensures idle: implies(old(src.err) != nil, len(r) == L)
inv (b=space bytes): L <= len(b) && len(b)-L <= len(S) && b == cat(old(space), S[:len(b)-L])
inv (b=space bytes): base(b) != base(src.buf)
inv (b=space bytes): lack2(S, b1, b1, len(b)-L)
inv (b=space bytes, i int): 0 <= i && len(b)-L+i <= len(S) && lack2(S, b1, b1, len(b)-L+i)
inv (b=space bytes): 0 <= len(b)-L && len(b)-L <= len(S) && strm(src) == S[len(b)-L:]
inv (b=space bytes, i int): 0 <= len(b)-L-i && len(b)-L <= len(S) && strm(src) == S[len(b)-L-i:]
inv (b=space bytes): implies(old(src.err) != nil, len(b) == L)
inv s: srcok(src) && errok(src, old(src.err))
end

contract plz/parse/read.AnyExcept2(src, space, b1, b2) r
prop C10
let S: strm(src)
let L: len(space)
requires src != nil && srcok(src) && base(space) != base(src.buf)
modifies src.current, src.err, elems(src.buf), ghost rem
ensures prefix: len(r) >= L && len(r)-L <= len(S) && r == cat(old(space), S[:len(r)-L])
ensures clean: lack2(S, b1, b2, len(r)-L)
ensures stop: len(r)-L == len(S) || old(src.err) != nil || S[len(r)-L] == b1 || S[len(r)-L] == b2
ensures rest: strm(src) == S[len(r)-L:]
ensures ok: srcok(src) && errok(src, old(src.err))
ensures idle: implies(old(src.err) != nil, len(r) == L)
inv (b=space bytes): L <= len(b) && len(b)-L <= len(S) && b == cat(old(space), S[:len(b)-L])
inv (b=space bytes): base(b) != base(src.buf)
inv (b=space bytes): lack2(S, b1, b2, len(b)-L)
inv (b=space bytes, i int): 0 <= i && len(b)-L+i <= len(S) && lack2(S, b1, b2, len(b)-L+i)
inv (b=space bytes): 0 <= len(b)-L && len(b)-L <= len(S) && strm(src) == S[len(b)-L:]
inv (b=space bytes, i int): 0 <= len(b)-L-i && len(b)-L <= len(S) && strm(src) == S[len(b)-L-i:]
inv (b=space bytes): implies(old(src.err) != nil, len(b) == L)
inv s: srcok(src) && errok(src, old(src.err))
end

fn isspc(b int) bool = b == ' ' || b >= 9 && b <= 13
rec fn spaces(s seq, i int) bool = ite(i <= 0, true, spaces(s, i-1) && isspc(s[i-1]))
contract plz/parse/skip.Space(src) r
prop C10
let S: strm(src)
requires src != nil && srcok(src)
modifies src.current, src.err, elems(src.buf), ghost rem
ensures count: 0 <= r && r <= len(S) && spaces(S, r)
ensures stop: r == len(S) || old(src.err) != nil || not(isspc(S[r]))
ensures rest: strm(src) == S[r:]
ensures ok: srcok(src) && errok(src, old(src.err))
ensures idle: implies(old(src.err) != nil, r == 0)
inv (n=count int): 0 <= n && n <= len(S) && spaces(S, n)
inv (n=count int): strm(src) == S[n:]
inv (n=count int, i int): 0 <= i && 0 <= n && n+i <= len(S) && spaces(S, n+i)
inv (n=count int, i int): 0 <= i && i <= n && n <= len(S) && strm(src) == S[n-i:]
inv (n=count int): implies(old(src.err) != nil, n == 0)
inv s: srcok(src) && errok(src, old(src.err))
end

fn isdig(b int) bool = b >= '0' && b <= '9'
rec fn digs(s seq, i int) bool = ite(i <= 0, true, digs(s, i-1) && isdig(s[i-1]))
rec fn numv(s seq, i int) int = ite(i <= 0, 0, numv(s, i-1) * 10 + s[i-1] - '0')
table plz/parse/read.intDigits(i, v) C07: v == ite(isdig(i), i - '0', -1)
fn numok(S seq, k int, m int) bool = 0 <= k && k <= len(S) && digs(S, k) && (k == len(S) || not(isdig(S[k]))) && numv(S, k) <= m
fn toobig(S seq, m int) bool = exists(k, 0, len(S)+1, digs(S, k) && numv(S, k) > m)

contract plz/parse/read.Uint64(src) r
prop C07
let S: strm(src)
requires src != nil && srcok(src)
modifies src.current, src.err, elems(src.buf), ghost rem
ensures idle: implies(old(src.err) != nil, r == 0 && strm(src) == S && src.err == old(src.err) && digs(S, 0) && numv(S, 0) == 0)
ensures value: implies(old(src.err) == nil && errok(src, old(src.err)), numok(S, len(S)-len(strm(src)), 1<<64 - 1) && r == numv(S, len(S)-len(strm(src))) && strm(src) == S[len(S)-len(strm(src)):])
ensures overflow: implies(old(src.err) == nil && not(errok(src, old(src.err))), r == 0 && made(src.err) && toobig(S, 1<<64 - 1))
ensures ok: srcok(src)
inv d: len(strm(src)) <= len(S) && strm(src) == S[len(S)-len(strm(src)):] && srcok(src)
inv e: errok(src, old(src.err)) 
inv (v=value int): digs(S, len(S)-len(strm(src))) && v == numv(S, len(S)-len(strm(src))) && v <= 1<<64 - 1
inv (v=value int, i int): 0 <= i && i <= len(src.current) && digs(S, len(S)-len(strm(src))+i) && v == numv(S, len(S)-len(strm(src))+i)
inv (v=value int): implies(old(src.err) != nil, v == 0 && strm(src) == S && src.err == old(src.err))
end

contract plz/parse.NewSource(reader, buf) r, err
prop C08
requires reader != nil && len(buf) > 0
modifies elems(buf), ghost rem
ensures ok: implies(r != nil, strm(r) == old(rem) && srcok(r) && r.err == nil && err == nil)
ensures fail: implies(r == nil, len(old(rem)) == 0 && err != nil)
inv (n=n int, e=err iface): 0 <= n && n <= len(buf) && cat(buf[:n], rem) == old(rem) && implies(e != nil, len(rem) == 0)
end

contract plz/parse.NewSourceString(s) r
prop C08
ensures r != nil
ensures current: r.current == s && r.reader == nil && len(r.nextList) == 0
ensures end: (r.err == nil) == (len(s) > 0)
end

fn signok(c int, S seq, k int, r int, m int) bool = ite(c == '-', k >= 1 && numok(S[1:], k-1, m+1) && r == 0 - numv(S[1:], k-1), numok(S, k, m) && r == numv(S, k))
fn toofar(c int, S seq, m int) bool = ite(c == '-', toobig(S[1:], m+1), toobig(S, m))

contract plz/parse/read.Int64(src) r
prop C07
let S: strm(src)
let C: src.current[0]
requires src != nil && srcok(src) && len(src.current) > 0 && src.err == nil
modifies src.current, src.err, elems(src.buf), ghost rem
ensures value: implies(src.err == nil || src.err == global("io.EOF"), signok(C, S, len(S)-len(strm(src)), r, 1<<63 - 1) && strm(src) == S[len(S)-len(strm(src)):])
ensures overflow: implies(made(src.err), r == 0 && toofar(C, S, 1<<63 - 1))
ensures broken: implies(src.err != nil && not(made(src.err)), len(strm(src)) == 0)
ensures ok: srcok(src)
end

contract plz/parse/read.Int32(src) r
prop C07
let S: strm(src)
let C: src.current[0]
requires src != nil && srcok(src) && len(src.current) > 0 && src.err == nil
modifies src.current, src.err, elems(src.buf), ghost rem
ensures value: implies(src.err == nil || src.err == global("io.EOF"), signok(C, S, len(S)-len(strm(src)), r, 1<<31 - 1) && strm(src) == S[len(S)-len(strm(src)):])
ensures overflow: implies(made(src.err), r == 0 && toofar(C, S, 1<<31 - 1))
ensures broken: implies(src.err != nil && not(made(src.err)), len(strm(src)) == 0)
ensures ok: srcok(src)
end

contract plz/parse/read.Int(src) r
prop C07
let S: strm(src)
let C: src.current[0]
requires src != nil && srcok(src) && len(src.current) > 0 && src.err == nil
modifies src.current, src.err, elems(src.buf), ghost rem
ensures value: implies(src.err == nil || src.err == global("io.EOF"), signok(C, S, len(S)-len(strm(src)), r, 1<<63 - 1) && strm(src) == S[len(S)-len(strm(src)):])
ensures overflow: implies(made(src.err), r == 0 && toofar(C, S, 1<<63 - 1))
ensures broken: implies(src.err != nil && not(made(src.err)), len(strm(src)) == 0)
ensures ok: srcok(src)
end
