// C13: a byte slice rendered by a message format
fn mescb(b int) seq = ite(b == '\\', "\\\\", ite(b == '\n', "\\n", ite(b == '\r', "\\r", ite(b == '\t', "\\t", ite(b < 32 || b >= 128 || b == '|', cat("\\x", unit(hexd(b / 16)), unit(hexd(b % 16))), unit(b))))))
rec fn mesc(s seq, i int) seq = ite(i <= 0, empty, cat(mesc(s, i-1), mescb(s[i-1])))
contract plz/msgfmt.writeBytes(space, s) r
prop C13
maymiss
ensures literal: r == cat(space, mesc(s, len(s)))
inv (b=space bytes, i int): b == cat(old(space), mesc(s, i))
inv (b=space bytes, t bytes, start int, i int): 0 <= start && start <= i && i <= len(t) && len(t) <= len(s) && cat(b, t[start:i]) == cat(old(space), mesc(s, len(s) - len(t) + i))
end
contract (plz/msgfmt.bytesFormatter).Format(formatter, space, properties) r
prop C13
requires idx: 0 <= formatter && formatter < len(properties)
ensures literal: implies(typeof(properties[formatter]) == typeid("[]uint8"), r == cat(space, mesc(payload("[]uint8", properties[formatter]), len(payload("[]uint8", properties[formatter])))))
end
