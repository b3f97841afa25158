J='''package jsonfmt_test
import ("testing";"github.com/v2pro/plz/msgfmt/jsonfmt")
func TestDemo(t *testing.T) {
%s
}
'''
SEEDS=[
dict(id='B01',prop='C01',pkg='msgfmt/jsonfmt',
 edits=[('msgfmt/jsonfmt/encoder_int.go','''	q4 := q3 / 1000
	if q4 == 0 {
		space = writeFirstBuf(space, digits[q3])
		space = writeBuf(space, digits[r3])
''','''	q4 := q3 / 1000
	if q4 == 0 {
		space = writeFirstBuf(space, digits[q3])
		if r3 != 0 || r2 != 0 {
			space = writeBuf(space, digits[r3])
		}
''')],
 demo=J%'if s:=string(jsonfmt.WriteUint64(nil, 7000000123)); s!="7000000123" { t.Fatal(s) }',
 needs='a 10-12 digit value whose third and second groups of three digits are both zero',
 breaks='the written digits are not the decimal numeral of the value (three digits are dropped)'),
dict(id='B02',prop='C02',pkg='msgfmt/jsonfmt',
 edits=[('msgfmt/jsonfmt/encoder_str.go','''		if start < i {
			space = append(space, s[start:i]...)''','''		if start+1 < i {
			space = append(space, s[start:i]...)''')],
 demo=J%'if s:=string(jsonfmt.WriteString(nil, "\\na\\n")); s!="\\"\\\\na\\\\n\\"" { t.Fatal(s) }',
 needs='exactly one plain byte between two bytes that need escaping',
 breaks='a byte of the string is lost, so the literal decodes to another string'),
dict(id='B03',prop='C03',pkg='msgfmt/jsonfmt',
 edits=[('msgfmt/jsonfmt/encoder_bytes.go','''			space = append(space, '\\\\', '\\\\', 'x', hex[b>>4], hex[b&0xF])
			start = i + 1''','''			space = append(space, '\\\\', '\\\\', 'x', hex[(b>>4)|8], hex[b&0xF])
			start = i + 1'''),('msgfmt/jsonfmt/encoder_bytes.go','''			// This encodes bytes < 0x20 except for \\t, \\n and \\r.
			space = append(space, '\\\\', '\\\\', 'x', hex[b>>4], hex[b&0xF])''','''			// This encodes bytes < 0x20 except for \\t, \\n and \\r.
			space = append(space, '\\\\', '\\\\', 'x', '0', hex[b&0xF])''')],
 demo=J%'if s:=string(jsonfmt.WriteBytes(nil, []byte{16})); s!="\\"\\\\\\\\x10\\"" { t.Fatal(s) }',
 needs='a control byte in 0x10..0x1f',
 breaks='two different control bytes are written as the same escape'),
]
