// C05: JSON of composite values is made of the JSON of their parts
// addresses: unsafe pointers are machine integers
fn at(p int, off int) int = (p + off) % 18446744073709551616
fn elat(p int, i int, size int) int = at(p, i * size % 18446744073709551616)

rec fn arrto(e int, p int, size int, i int) seq = ite(i <= 0, empty, cat(arrto(e, p, size, i-1), ite(i == 1, empty, ","), encout(e, elat(p, i-1, size))))

contract (reflect.Type).Len(recv) r
trusted the length of the array type
ensures r == arrlen(recv) && r >= 0
end
fn arrlen(t int) int

contract (*plz/msgfmt/jsonfmt.arrayEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.arrayType != nil && encoder.arrayType.Type != nil && encoder.elemEncoder != nil && arrlen(encoder.arrayType.Type) >= 0
ensures array: r == cat(space, "[", arrto(encoder.elemEncoder, ptr, encoder.arrayType.elemSize, arrlen(encoder.arrayType.Type)), "]")
inv (b=space bytes, i int): 0 <= i && i <= arrlen(encoder.arrayType.Type) && b == cat(old(space), "[", arrto(encoder.elemEncoder, ptr, encoder.arrayType.elemSize, i))
end

contract (*plz/msgfmt/jsonfmt.sliceEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.sliceType != nil && encoder.elemEncoder != nil && ptr != nil
requires field("plz/reflect2.sliceHeader", "Len", ptr) >= 0
ensures slice: r == cat(space, "[", arrto(encoder.elemEncoder, field("plz/reflect2.sliceHeader", "Data", ptr), encoder.sliceType.elemSize, field("plz/reflect2.sliceHeader", "Len", ptr)), "]")
inv (b=space bytes, i int): 0 <= i && i <= field("plz/reflect2.sliceHeader", "Len", ptr) && b == cat(old(space), "[", arrto(encoder.elemEncoder, field("plz/reflect2.sliceHeader", "Data", ptr), encoder.sliceType.elemSize, i))
end

rec fn fldto(fs seq, p int, i int) seq = ite(i <= 0, empty, cat(fldto(fs, p, i-1), as("plz/msgfmt/jsonfmt.structEncoderField", fs[i-1]).prefix, encout(as("plz/msgfmt/jsonfmt.structEncoderField", fs[i-1]).encoder, at(p, as("plz/msgfmt/jsonfmt.structEncoderField", fs[i-1]).structField.StructField.Offset))))
contract (*plz/msgfmt/jsonfmt.structEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && forall(k, 0, len(encoder.fields), encoder.fields[k].structField != nil && encoder.fields[k].encoder != nil)
ensures struct: r == cat(space, "{", fldto(encoder.fields, ptr, len(encoder.fields)), "}")
inv (b=space bytes, i int): 0 <= i && i <= len(encoder.fields) && b == cat(old(space), "{", fldto(encoder.fields, ptr, i))
end

contract (*plz/msgfmt/jsonfmt.pointerEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.elemEncoder != nil && ptr != nil
ensures pointer: r == ite(cell("unsafe.Pointer", ptr) == nil, cat(space, "null"), cat(space, encout(encoder.elemEncoder, cell("unsafe.Pointer", ptr))))
end
contract (*plz/msgfmt/jsonfmt.boolEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures bool: r == cat(space, ite(cell("bool", ptr), "true", "false"))
end
contract (*plz/msgfmt/jsonfmt.recursiveEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.encoder != nil
ensures same: r == cat(space, encout(encoder.encoder, ptr))
end
contract (*plz/msgfmt/jsonfmt.unsupportedEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil
ensures message: r == cat(space, encoder.msg)
end
contract (*plz/msgfmt/jsonfmt.nilEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
ensures null: r == cat(space, "null")
end
contract (*plz/msgfmt/jsonfmt.mapNumberKeyEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.valEncoder != nil
ensures key: r == cat(space, "\"", encout(encoder.valEncoder, ptr), "\":")
end
contract (*plz/msgfmt/jsonfmt.mapStringKeyEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.valEncoder != nil
ensures key: r == cat(space, encout(encoder.valEncoder, ptr), ":")
end

// maps: the runtime's iterator visits every entry once
fn iterof(m int) int
fn mcount(it int) int
fn mkey(it int, i int) int
fn melem(it int, i int) int
fn kpos(it int, key int) int
contract plz/reflect2.mapiterinit(rtype, m) r
trusted the first entry of the map, or none
ensures fresh(r) && r == iterof(m) && r != nil && mcount(r) >= 0 && kpos(r, r.key) == 0 && iff(r.key == nil, mcount(r) == 0)
ensures implies(r.key != nil, r.key == mkey(r, 0) && r.value == melem(r, 0))
end
contract plz/reflect2.mapiternext(it)
trusted the next entry of the map, or none
requires it.key != nil
modifies it.key, it.value
ensures kpos(it, it.key) == old(kpos(it, it.key)) + 1 && iff(it.key == nil, kpos(it, it.key) == mcount(it)) && kpos(it, it.key) <= mcount(it)
ensures implies(it.key != nil, it.key == mkey(it, kpos(it, it.key)) && it.value == melem(it, kpos(it, it.key)))
end
rec fn mapto(ke int, ee int, it int, i int) seq = ite(i <= 0, empty, cat(mapto(ke, ee, it, i-1), ite(i == 1, empty, ","), encout(ke, mkey(it, i-1)), encout(ee, melem(it, i-1))))
contract (*plz/msgfmt/jsonfmt.mapEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.keyEncoder != nil && encoder.elemEncoder != nil && encoder.mapType != nil && ptr != nil
let m: cell("unsafe.Pointer", ptr)
ensures null: implies(m == nil, r == cat(space, "null"))
ensures map: implies(m != nil, r == cat(space, "{", mapto(encoder.keyEncoder, encoder.elemEncoder, iterof(m), mcount(iterof(m))), "}"))
inv (b=space bytes, i int): 0 <= i && i <= mcount(iterof(m)) && kpos(iterof(m), field("plz/reflect2.hiter", "key", iterof(m))) == i && iff(field("plz/reflect2.hiter", "key", iterof(m)) == nil, i == mcount(iterof(m))) && implies(field("plz/reflect2.hiter", "key", iterof(m)) != nil, field("plz/reflect2.hiter", "key", iterof(m)) == mkey(iterof(m), i) && field("plz/reflect2.hiter", "value", iterof(m)) == melem(iterof(m), i)) && b == cat(old(space), "{", mapto(encoder.keyEncoder, encoder.elemEncoder, iterof(m), i))
end
fn typeenc(t int) int
contract plz/msgfmt/jsonfmt.EncoderOf(valType) r
trusted the encoder of a type
requires valType != nil
ensures r != nil && r == typeenc(valType)
end
fn type2of(t int) int
contract plz/reflect2.TypeOf(obj) r
trusted the type of a value
ensures r != nil && r == type2of(typeof(obj)) && typeenc(r) == encfor(rtype(typeof(obj)))
end
fn indirect(t int, p int) int
contract (plz/reflect2.Type).UnsafeIndirect(recv, ptr) r
trusted the value at ptr
ensures r == indirect(recv, ptr)
end
contract (*plz/msgfmt/jsonfmt.dynamicEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.valType != nil
let v: indirect(encoder.valType, ptr)
ensures null: implies(v == nil, r == cat(space, "null"))
ensures value: implies(v != nil, r == cat(space, encout(typeenc(type2of(typeof(v))), ptrof(v))))
end
fn errtext(e int) seq
contract (error).Error(recv) r
trusted the same text every time, does not panic
ensures r == errtext(recv)
end
contract plz/msgfmt/jsonfmt.isNilPtr(obj) r
trusted
ensures implies(obj == nil, r)
end
contract (*plz/msgfmt/jsonfmt.errorEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.valType != nil
let v: indirect(encoder.valType, ptr)
requires v == nil || implements("error", v)
ensures null: implies(v == nil, r == cat(space, "null"))
ensures text: r == cat(space, "null") || r == cat(space, "\"", jesc(errtext(v), len(errtext(v))), "\"")
end
contract (*plz/msgfmt/jsonfmt.int8Encoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], cell("int8", ptr))
end
contract (*plz/msgfmt/jsonfmt.uint8Encoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], cell("uint8", ptr))
end
contract (*plz/msgfmt/jsonfmt.int16Encoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], cell("int16", ptr))
end
contract (*plz/msgfmt/jsonfmt.uint16Encoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], cell("uint16", ptr))
end
contract (*plz/msgfmt/jsonfmt.int32Encoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], cell("int32", ptr))
end
contract (*plz/msgfmt/jsonfmt.uint32Encoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], cell("uint32", ptr))
end
contract (*plz/msgfmt/jsonfmt.int64Encoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], cell("int64", ptr))
end
contract (*plz/msgfmt/jsonfmt.uint64Encoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures prefix: r[:len(space)] == space
ensures numeral: isint(r[len(space):], cell("uint64", ptr))
end

// which encoder a type has
fn kindof(t int) int
fn implof(t int, i int) bool
fn rtypeof(t int) int
contract (plz/reflect2.Type).Kind(recv) r
trusted the kind of the type
ensures r == kindof(recv)
ensures implies(r == 17, typeof(recv) == typeid("*plz/reflect2.UnsafeArrayType")) && implies(r == 21, typeof(recv) == typeid("*plz/reflect2.UnsafeMapType")) && implies(r == 22, typeof(recv) == typeid("*plz/reflect2.UnsafePtrType")) && implies(r == 23, typeof(recv) == typeid("*plz/reflect2.UnsafeSliceType")) && implies(r == 25, typeof(recv) == typeid("*plz/reflect2.UnsafeStructType"))
end
contract (plz/reflect2.PtrType).Elem(recv) r
trusted
ensures r != nil
end
contract (plz/reflect2.SliceType).Elem(recv) r
trusted
ensures r != nil
end
contract (plz/reflect2.ArrayType).Elem(recv) r
trusted
ensures r != nil
end
contract (plz/reflect2.MapType).Elem(recv) r
trusted
ensures r != nil
end
contract (plz/reflect2.MapType).Key(recv) r
trusted
ensures r != nil
end
contract plz/msgfmt/jsonfmt.encoderOfMapKey(cfg, prefix, keyType) r
trusted the encoder of a map key
requires keyType != nil
ensures r != nil && r == keyenc(cfg, keyType)
end
contract (plz/reflect2.StructType).NumField(recv) r
trusted
ensures r >= 0
end
contract (plz/reflect2.StructType).Field(recv, i) r
trusted
ensures typeof(r) == typeid("*plz/reflect2.UnsafeStructField") && r != nil && payload("*plz/reflect2.UnsafeStructField", r) != nil
end
contract (plz/reflect2.StructField).Name(recv) r
trusted a field has a name
ensures r == fieldname(recv) && len(r) > 0
end
fn fieldname(f int) seq
contract (plz/reflect2.StructField).Type(recv) r
trusted
ensures r != nil && r == fieldtype(recv)
end
contract (plz/reflect2.StructField).Tag(recv) r
trusted
ensures r == fieldtag(recv)
end
contract (reflect.StructTag).Get(recv, key) r
trusted
ensures r == tagget(recv, key)
end
contract strings.Split(s, sep) r
trusted splits a string
ensures implies(len(sep) > 0, len(r) > 0 && r[0] == sfirst(s, sep))
end

contract (plz/reflect2.Type).Implements(recv, thatType) r
trusted
ensures r == implof(recv, thatType)
end
contract (plz/reflect2.Type).RType(recv) r
trusted identifies the type
ensures r == rtypeof(recv)
end
contract (plz/msgfmt/jsonfmt.Extension).EncoderOf(recv, prefix, valType) r
trusted the encoder of an extension, or nil
end
fn is(r int, t int) bool = typeof(r) == t
fn plain(cfg any, t int) bool = len(cfg.extensions) == 0 && t != global("plz/msgfmt/jsonfmt.bytesType") && not(implof(t, global("plz/msgfmt/jsonfmt.errorType"))) && not(implof(t, global("plz/msgfmt/jsonfmt.jsonMarshalerType")))
fn kindenc(r int, k int) bool = implies(k == 1, is(r, typeid("*plz/msgfmt/jsonfmt.boolEncoder"))) && implies(k == 2 || k == 6, is(r, typeid("*plz/msgfmt/jsonfmt.int64Encoder"))) && implies(k == 3, is(r, typeid("*plz/msgfmt/jsonfmt.int8Encoder"))) && implies(k == 4, is(r, typeid("*plz/msgfmt/jsonfmt.int16Encoder"))) && implies(k == 5, is(r, typeid("*plz/msgfmt/jsonfmt.int32Encoder"))) && implies(k == 7 || k == 11 || k == 12, is(r, typeid("*plz/msgfmt/jsonfmt.uint64Encoder"))) && implies(k == 8, is(r, typeid("*plz/msgfmt/jsonfmt.uint8Encoder"))) && implies(k == 9, is(r, typeid("*plz/msgfmt/jsonfmt.uint16Encoder"))) && implies(k == 10, is(r, typeid("*plz/msgfmt/jsonfmt.uint32Encoder"))) && implies(k == 13, is(r, typeid("*plz/msgfmt/jsonfmt.lossyFloat32Encoder"))) && implies(k == 14, is(r, typeid("*plz/msgfmt/jsonfmt.lossyFloat64Encoder"))) && implies(k == 17, is(r, typeid("*plz/msgfmt/jsonfmt.arrayEncoder"))) && implies(k == 20, is(r, typeid("*plz/msgfmt/jsonfmt.dynamicEncoder"))) && implies(k == 21, is(r, typeid("*plz/msgfmt/jsonfmt.mapEncoder"))) && implies(k == 22, is(r, typeid("*plz/msgfmt/jsonfmt.pointerEncoder"))) && implies(k == 23, is(r, typeid("*plz/msgfmt/jsonfmt.sliceEncoder"))) && implies(k == 24, is(r, typeid("*plz/msgfmt/jsonfmt.stringEncoder"))) && implies(k == 25, is(r, typeid("*plz/msgfmt/jsonfmt.structEncoder")))
contract plz/msgfmt/jsonfmt.encoderOf(cfg, prefix, valType) r
prop C05
requires cfg != nil && cfg.incomplete != nil && valType != nil && forall(k, 0, len(cfg.extensions), cfg.extensions[k] != nil)
modifies map(cfg.incomplete)
ensures some: r != nil
ensures kind: implies(plain(cfg, valType) && not(old(haskey(cfg.incomplete, rtypeof(valType)))), kindenc(r, kindof(valType)))
end
contract plz/msgfmt/jsonfmt.createEncoderOf(cfg, prefix, valType) r
prop C05
requires cfg != nil && cfg.incomplete != nil && valType != nil && forall(k, 0, len(cfg.extensions), cfg.extensions[k] != nil)
modifies map(cfg.incomplete)
ensures some: r != nil
ensures bytes: implies(len(cfg.extensions) == 0 && valType == global("plz/msgfmt/jsonfmt.bytesType"), is(r, typeid("*plz/msgfmt/jsonfmt.bytesEncoder")))
ensures kind: implies(plain(cfg, valType), kindenc(r, kindof(valType)))
end

fn fieldtype(f int) int
fn fieldtag(f int) seq
fn tagget(t seq, key seq) seq
fn sfirst(s seq, sep seq) seq
fn upper(r int) bool
contract unicode.IsUpper(r) res
trusted
ensures res == upper(r)
end
fn jname(t seq, name seq) seq = ite(len(t) == 0, name, ite(sfirst(t, ",") == "-", empty, ite(len(sfirst(t, ",")) == 0, name, sfirst(t, ","))))
contract plz/msgfmt/jsonfmt.getFieldName(cfg, field) r
prop C05
requires cfg != nil && field != nil && (typeof(field) == typeid("*plz/reflect2.UnsafeStructField"))
ensures name: r == ite(not(cfg.includesUnexported) && not(upper(fieldname(field)[0])) || kindof(fieldtype(field)) == 19 || kindof(fieldtype(field)) == 18, empty, jname(tagget(fieldtag(field), "json"), fieldname(field)))
end
fn pfx(p seq, k int) bool = len(p) >= 3 && p[0] == ite(k == 0, '"', ',') && implies(k > 0, p[1] == '"') && p[len(p)-2] == '"' && p[len(p)-1] == ':'
contract plz/msgfmt/jsonfmt.encoderOfStruct(cfg, prefix, valType) r
prop C05
requires cfg != nil && cfg.incomplete != nil && valType != nil && forall(k, 0, len(cfg.extensions), cfg.extensions[k] != nil)
modifies map(cfg.incomplete)
ensures some: r != nil
ensures fields: forall(k, 0, len(r.fields), r.fields[k].encoder != nil && r.fields[k].structField != nil)
ensures names: forall(k, 0, len(r.fields), pfx(r.fields[k].prefix, k))
inv (f slice): forall(k, 0, len(f), f[k].encoder != nil && f[k].structField != nil)
inv (f slice): forall(k, 0, len(f), pfx(f[k].prefix, k))
end

contract (*plz/msgfmt/jsonfmt.stringEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures literal: r == cat(space, "\"", jesc(cell("string", ptr), len(cell("string", ptr))), "\"")
end
contract (*plz/msgfmt/jsonfmt.bytesEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires ptr != nil
ensures literal: r == cat(space, "\"", besc(cell("[]byte", ptr), len(cell("[]byte", ptr))), "\"")
end
fn marshaled(v int) seq
fn marshalerr(v int) int
contract (encoding/json.Marshaler).MarshalJSON(recv) r, err
trusted the same result every time, does not panic
ensures r == marshaled(recv) && err == marshalerr(recv)
end
contract (*plz/msgfmt/jsonfmt.jsonMarshalerEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.valType != nil
let v: indirect(encoder.valType, ptr)
requires v == nil || implements("encoding/json.Marshaler", v)
ensures null: implies(v == nil, r == cat(space, "null"))
ensures text: r == cat(space, "null") || r == ite(marshalerr(v) == nil, cat(space, marshaled(v)), cat(space, "\"", jesc(errtext(marshalerr(v)), len(errtext(marshalerr(v)))), "\""))
end
contract (*plz/msgfmt/jsonfmt.mapInterfaceKeyEncoder).Encode(encoder, ctx, space, ptr) r
prop C05
requires encoder != nil && encoder.keyType != nil
let v: indirect(encoder.keyType, ptr)
ensures null: implies(v == nil, r == cat(space, "\"null\":"))
ensures key: implies(v != nil && not(likeptr(type2of(typeof(v)))), r == cat(space, encout(keyenc(encoder.cfg, type2of(typeof(v))), ptrof(v))))
end
fn likeptr(t int) bool
fn keyenc(cfg int, t int) int
contract (plz/reflect2.Type).LikePtr(recv) r
trusted
ensures r == likeptr(recv)
end
