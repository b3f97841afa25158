// C12: message formatting
// What a formatter writes for given arguments: some text, determined by the formatter and the arguments.
fn fmtout(f int, kvb int, kvo int, kvl int) seq
fn fmto(f int, kv any) seq = fmtout(f, base(kv), offset(kv), len(kv))

contract (plz/msgfmt.Formatter).Format(recv, space, kv) r
trusted appends its text to space; every formatter under contract does
ensures r == cat(space, fmto(recv, kv))
end

rec fn fold(fb seq, kvb int, kvo int, kvl int, i int) seq = ite(i <= 0, empty, cat(fold(fb, kvb, kvo, kvl, i-1), fmtout(fb[i-1], kvb, kvo, kvl)))

contract (plz/msgfmt.Formatters).Format(formatters, space, kv) r
prop C12
requires forall(k, 0, len(formatters.formatters), formatters.formatters[k] != nil)
ensures inorder: r == cat(old(space), fold(formatters.formatters, base(kv), offset(kv), len(kv), len(formatters.formatters)))
inv (b=space bytes, i int): 0 <= i && i <= len(formatters.formatters) && b == cat(old(space), fold(formatters.formatters, base(kv), offset(kv), len(kv), i))
end

contract (plz/msgfmt.Formatters).Append(formatters, formatter) r
prop C12
ensures appended: len(r.formatters) == len(formatters.formatters) + 1 && r.formatters[len(formatters.formatters)] == formatter
ensures kept: forall(k, 0, len(formatters.formatters), r.formatters[k] == formatters.formatters[k])
end

contract (plz/msgfmt.fixedFormatter).Format(formatter, space, kv) r
prop C12
ensures literal: r == cat(space, formatter)
end

contract (plz/msgfmt.strFormatter).Format(formatter, space, kv) r
prop C12
requires 0 <= formatter && formatter < len(kv)
ensures value: r == cat(space, old(valtext(kv[formatter])))
end

fn strof(s int) seq
contract (fmt.Stringer).String(recv) r
trusted returns the same text every time, does not panic
ensures r == strof(recv)
end

contract (plz/msgfmt.stringerFormatter).Format(formatter, space, kv) r
prop C12
requires 0 <= formatter && formatter < len(kv)
ensures value: r == cat(space, old(valtext(kv[formatter])))
end

fn encout(e int, p int) seq
contract (plz/msgfmt/jsonfmt.Encoder).Encode(recv, ctx, space, ptr) r
trusted appends the JSON of the value to space
ensures r == cat(space, encout(recv, ptr))
end
fn ptrof(v int) int
contract plz/reflect2.PtrOf(obj) r
trusted the data word of an interface value
ensures r == ptrof(obj)
end
fn rtype(t int) int
fn encfor(rt int) int
fn encoder(t int) int = encfor(rtype(t))
// the text of a value: what it says of itself, null, strings as they are, byte slices escaped, and the JSON of everything else
fn valtext(v any) seq = ite(v != nil && implements("fmt.Stringer", v), strof(v), ite(v == nil, "null", ite(typeof(v) == typeid("string"), payload("string", v), ite(typeof(v) == typeid("[]uint8"), mesc(payload("[]uint8", v), len(payload("[]uint8", v))), encout(encoder(typeof(v)), ptrof(v))))))
contract plz/msgfmt.formatValue(space, val) r
prop C12
ensures value: r == cat(space, old(valtext(val)))
end
contract plz/msgfmt/jsonfmt.EncoderOfObject(obj) r
trusted finds the encoder of the type of a value
ensures r == encoder(typeof(obj)) && r != nil
end
contract (*plz/msgfmt.jsonFormatter).Format(formatter, space, kv) r
prop C12
requires formatter != nil && 0 <= formatter.idx && formatter.idx < len(kv)
// encoders are those of the type, and types that are written as JSON are no strings, byte slices or Stringers
requires implies(formatter.encoder != nil, formatter.encoder == encfor(formatter.valType))
requires implies(formatter.encoder != nil && rtype(typeof(kv[formatter.idx])) == formatter.valType, kv[formatter.idx] != nil && not(implements("fmt.Stringer", kv[formatter.idx])) && typeof(kv[formatter.idx]) != typeid("string") && typeof(kv[formatter.idx]) != typeid("[]uint8"))
ensures value: r == cat(space, old(valtext(kv[formatter.idx])))
end

contract plz/msgfmt.findValueIndex(sample, target) r
prop C12
requires len(sample) % 2 == 0 && forall(k, 0, len(sample), implies(k % 2 == 0, typeof(sample[k]) == typeid("string")))
ensures found: implies(r != -1, 1 <= r && r < len(sample) && r % 2 == 1 && payload("string", sample[r-1]) == target)
ensures first: forall(k, 0, ite(r == -1, len(sample), r-1), implies(k % 2 == 0, payload("string", sample[k]) != target))
inv (i int): 0 <= i && i % 2 == 0 && i <= len(sample) && forall(k, 0, i, implies(k % 2 == 0, payload("string", sample[k]) != target))
end

// the cache of compiled formats
fn keyof(v any) seq = ite(typeof(v) == typeid("string"), payload("string", v), empty)
fn paired(e any) bool = len(e.types) <= len(e.keys) && len(e.keys) <= len(e.types) + 1
fn fmtentry(v any) bool = typeof(v) == typeid("*plz/msgfmt.cachedFormatter") && payload("*plz/msgfmt.cachedFormatter", v) != nil && payload("*plz/msgfmt.cachedFormatter", v).formatter != nil && paired(payload("*plz/msgfmt.cachedFormatter", v))
fn agreesn(e any, sample any, n int) bool = len(e.keys) == (n + 1) / 2 && len(e.types) == n / 2 && agreesto(e, sample, n)
fn agreesto(e any, sample any, n int) bool = forall(k, 0, n, implies(k % 2 == 0, e.keys[k/2] == keyof(sample[k]))) && forall(k, 0, n, implies(k % 2 == 1, e.types[k/2] == rtype(typeof(sample[k]))))
contract reflect.TypeOf(i) r
trusted one value for every type
ensures r == rtype(typeof(i)) && iff(r == nil, i == nil)
end
contract plz/reflect2.NoEscape(p) r
trusted returns p
ensures r == p
end
contract plz/msgfmt.newCachedFormatter(formatter, sample) r
prop C12
ensures recorded: r != nil && r.formatter == formatter && agreesn(r, sample, len(sample))
inv (e ref, i int): 0 <= i && i <= len(sample) && e != nil && e.formatter == formatter && agreesn(e, sample, i)
end
contract (*plz/msgfmt.cachedFormatter).matches(cached, sample) r
prop C12
requires cached != nil && paired(cached)
ensures same: implies(r, agreesn(cached, sample, len(sample)))
inv (i int): 0 <= i && i <= len(sample) && agreesto(cached, sample, i)
end
contract plz/msgfmt.compile(format, sample) r
trusted compiles the format, does not panic (checked by the bounded harness)
ensures r != nil
end
contract plz/msgfmt.FormatterOf(format, sample) r
prop C12
ensures some: r != nil
end
ghost wcount int
ghost wfails int
ghost wdest int
// the memory of the buffer that was given back to the pool last, and whether what was written was still owned
ghost pooled int
ghost wowned bool
// what was written last, and whether that failed
ghost wtext seq
ghost werr bool
contract (io.Writer).Write(recv, p) n, err
trusted writes p
modifies ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest, ghost wowned, ghost wtext, ghost werr
ensures wcount == old(wcount) + 1 && wdest == recv && wowned == (base(p) != pooled) && wtext == p && iff(werr, err != nil)
ensures wfails == old(wfails) + ite(err != nil, 1, 0)
end
contract fmt.Fprintln(w, a) n, err
trusted writes to w
modifies ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest
ensures wcount == old(wcount) + 1 && wdest == w
end
contract (*sync.Pool).Get(p) r
trusted the pool of buffers only holds buffers
modifies ghost pooled
ensures pooled == 0
ensures implies(p == global("plz/msgfmt.bufPool") || p == global("plz/countlog/output.bufPool"), typeof(r) == typeid("[]uint8"))
end
contract (*sync.Pool).Put(p, x)
trusted
modifies ghost pooled
ensures pooled == base(payload("[]uint8", x))
requires buffer: implies(p == global("plz/msgfmt.bufPool") || p == global("plz/countlog/output.bufPool"), typeof(x) == typeid("[]uint8"))
end
contract plz/msgfmt.Fprintf(writer, format, kvObj) n, err
prop C12
requires writer != nil
modifies ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest, ghost wowned, ghost wtext, ghost werr, ghost pooled
ensures written: wcount == old(wcount) + 1 && wdest == writer
ensures owned: wowned
end
contract plz/msgfmt.Printf(format, kvObj) n, err
prop C12
requires global("os.Stdout") != nil
modifies ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest, ghost wowned, ghost wtext, ghost werr, ghost pooled
ensures owned: wowned
ensures written: wcount == old(wcount) + 1
end
contract plz/msgfmt.Fprintln(writer, valuesObj) n, err
prop C12
requires writer != nil
modifies ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest
ensures written: wcount == old(wcount) + 1 && wdest == writer
end
fn timetext(t any, layout seq) seq
contract (time.Time).AppendFormat(t, b, layout) r
trusted appends the text of the time
ensures r == cat(b, timetext(t, layout))
end
contract (*plz/msgfmt.goTimeFormatter).Format(formatter, space, kv) r
prop C12
requires formatter != nil && 0 <= formatter.idx && formatter.idx < len(kv)
ensures value: r == cat(space, ite(typeof(kv[formatter.idx]) == typeid("time.Time"), timetext(payload("time.Time", kv[formatter.idx]), formatter.layout), old(valtext(kv[formatter.idx]))))
end
contract (*os.File).Write(recv, p) n, err
trusted writes p
modifies ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest, ghost wowned
ensures wcount == old(wcount) + 1 && wowned == (base(p) != pooled)
ensures 0 <= n && n <= len(p) && implies(err == nil, n == len(p))
ensures cursize == old(cursize) + ite(recv == curfile, n, 0) && lastwrite == p
end
