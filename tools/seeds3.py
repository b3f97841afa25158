J='''package jsonfmt_test
import ("testing";"github.com/v2pro/plz/msgfmt/jsonfmt")
func TestDemo(t *testing.T) {
  %s
}
'''
SEEDS=[
dict(id='B16',prop='C04',pkg='msgfmt/jsonfmt',
 edits=[('msgfmt/jsonfmt/encoder_float.go','lval := uint64(float64(val)*float64(exp) + 0.5)','lval := uint64(val*float32(exp) + 0.5)')],
 demo=J%'for f, w := range map[float32]string{12345.678: "12345.677734", 1.5: "1.5"} { if s:=string(jsonfmt.WriteFloat32Lossy(nil, f)); s!=w { t.Fatal(f, s, w) } }',
 needs='a float32 with more than about one integer digit and a fraction that is not short',
 breaks='the number written is off by much more than 1e-6, because the scaling is done in float32'),
dict(id='B17',prop='C04',pkg='msgfmt/jsonfmt',
 edits=[('msgfmt/jsonfmt/encoder_float.go','''	if val > 0x4ffffff {
		return WriteFloat64(space, val)''','''	if val > 0x4ffffffffff {
		return WriteFloat64(space, val)''')],
 demo=J%'if s:=string(jsonfmt.WriteFloat64Lossy(nil, 12345678901.123457)); s!="12345678901.123457" && s != "1.2345678901123457e+10" { t.Fatal(s) }\n if s:=string(jsonfmt.WriteFloat64Lossy(nil, 4398046511103.9995)); s!="4398046511103.9995" && s!="4.3980465111039995e+12" { t.Fatal(s) }',
 needs='a float64 far above 2^27 with a fraction',
 breaks='large numbers lose their precision'),
]
