// C02: a string is written as the JSON string literal that denotes it.
fn hexd(n int) int = ite(n < 10, '0' + n, 'a' + n - 10)
fn jescb(b int) seq = ite(b == '"' || b == '\\', cat("\\", unit(b)), ite(b == '\n', "\\n", ite(b == '\r', "\\r", ite(b == '\t', "\\t", ite(b < 32, cat("\\u00", unit(hexd(b / 16)), unit(hexd(b % 16))), unit(b))))))
rec fn jesc(s seq, i int) seq = ite(i <= 0, empty, cat(jesc(s, i-1), jescb(s[i-1])))

contract plz/msgfmt/jsonfmt.WriteString(space, str) r
prop C02
ensures literal: r == cat(space, "\"", jesc(str, len(str)), "\"")
inv (b=space bytes, i int): b == cat(old(space), "\"", jesc(str, i))
inv (b=space bytes, s bytes, start int, i int): 0 <= start && start <= i && i <= len(s) && len(s) <= len(str) && cat(b, s[start:i]) == cat(old(space), "\"", jesc(str, len(str) - len(s) + i))
end

// C03
fn bescb(b int) seq = ite(b >= 128, cat("\\\\x", unit(hexd(b / 16)), unit(hexd(b % 16))), ite(b == '"' || b == '\\', cat("\\", unit(b)), ite(b == '\n', "\\n", ite(b == '\r', "\\r", ite(b == '\t', "\\t", ite(b < 32, cat("\\\\x", unit(hexd(b / 16)), unit(hexd(b % 16))), unit(b)))))))
rec fn besc(s seq, i int) seq = ite(i <= 0, empty, cat(besc(s, i-1), bescb(s[i-1])))
contract plz/msgfmt/jsonfmt.WriteBytes(space, s) r
prop C03
ensures literal: r == cat(space, "\"", besc(s, len(s)), "\"")
inv (b=space bytes, i int): b == cat(old(space), "\"", besc(s, i))
inv (b=space bytes, t bytes, start int, i int): 0 <= start && start <= i && i <= len(t) && len(t) <= len(s) && cat(b, t[start:i]) == cat(old(space), "\"", besc(s, len(s) - len(t) + i))
end
