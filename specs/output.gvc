// C25: the text output formats. What a formatter writes for an event is determined by the formatter and the event.
fn evtext(f int, event int) seq
contract (plz/countlog/output.Formatter).Format(recv, space, event) r
trusted appends its text to space; every formatter under contract does
ensures r == cat(space, evtext(recv, event))
end
rec fn evfold(fb seq, event int, i int) seq = ite(i <= 0, empty, cat(evfold(fb, event, i-1), evtext(fb[i-1], event)))
contract (plz/countlog/output.Formatters).Format(formatters, space, event) r
prop C25
requires forall(k, 0, len(formatters), formatters[k] != nil)
ensures inorder: r == cat(old(space), evfold(formatters, event, len(formatters)))
inv (b=space bytes, i int): 0 <= i && i <= len(formatters) && b == cat(old(space), evfold(formatters, event, i))
inv (b=space bytes, q slice): len(q) <= len(formatters) && q == formatters[len(formatters)-len(q):] && b == cat(old(space), evfold(formatters, event, len(formatters)-len(q)))
inv (q slice): forall(k, 0, len(q), q[k] != nil)
end

fn colored(level int) seq
contract plz/countlog/spi.ColoredLevelName(level) r
trusted the coloured name of the level (compared with an oracle by the bounded harness)
ensures r == colored(level)
end
contract (*plz/countlog/output/hrf.levelFormatter).Format(formatter, space, event) r
prop C25
requires event != nil
ensures level: r == cat(space, colored(event.Level))
end
contract (*plz/countlog/output/hrf.errorFormatter).Format(formatter, space, event) r
prop C25
requires event != nil
ensures error: r == ite(event.Error == nil || errtext(event.Error) == "", space, cat(space, "\n\x1b[90;1merror: ", errtext(event.Error), "\x1b[0m"))
end
contract (plz/countlog/output/hrf.fixedFormatter).Format(formatter, space, event) r
prop C25
ensures literal: r == cat(space, formatter)
end
contract (plz/countlog/output/hrf.locationFormatter).Format(formatter, space, event) r
prop C25
requires event != nil
ensures location: r == ite(event.Level >= 40, cat(space, formatter), space)
end
contract (*plz/countlog/output/hrf.propFormatter).Format(formatter, space, event) r
prop C25
requires event != nil && formatter != nil && formatter.fmt != nil
ensures props: r == cat(space, fmto(formatter.fmt, event.Properties))
end
contract (*plz/countlog/output/hrf.timestampFormatter).Format(formatter, space, event) r
prop C25
requires event != nil
ensures time: r == cat(space, timetext(event.Timestamp, "15:04:05.000"))
end
fn unixnano(t any) int
contract (time.Time).UnixNano(t) r
trusted
ensures r == unixnano(t)
end
fn durtext(d int) seq
contract (time.Duration).String(d) r
trusted
ensures r == durtext(d)
end
contract (*plz/countlog/output/hrf.timerFormatter).Format(formatter, space, event) r
prop C25
requires event != nil && formatter != nil && 0 <= formatter.idx && formatter.idx < len(event.Properties) && typeof(event.Properties[formatter.idx]) == typeid("int64")
ensures timer: implies(unixnano(event.Timestamp) >= 0 && payload("int64", event.Properties[formatter.idx]) >= 0, r == cat(space, "\ntimer: ", durtext(unixnano(event.Timestamp) - payload("int64", event.Properties[formatter.idx]))))
end
fn logctx(c int) int
contract plz/countlog/spi.GetLogContext(ctx) r
trusted the properties kept in a context; one object for every context
ensures r == logctx(ctx)
end
contract (*plz/countlog/output/hrf.ctxFormatter).Format(formatter, space, event) r
prop C25
requires event != nil && formatter != nil
ensures prefix: r[:len(space)] == space
inv (i int): 0 <= i && i <= 140737488355329
ensures none: implies(event.Context == nil || logctx(event.Context) == nil, r == space)
end

contract (*plz/countlog/output/compact.defaultFormatter).Format(formatter, space, event) r
prop C25
requires event != nil && formatter != nil && formatter.fmt != nil
ensures props: r == cat(space, fmto(formatter.fmt, event.Properties))
end
contract (*plz/countlog/output/compact.errorFormatter).Format(formatter, space, event) r
prop C25
requires event != nil
ensures error: r == ite(event.Error == nil || errtext(event.Error) == "", space, cat(space, " error:", errtext(event.Error)))
end
contract (plz/countlog/output/compact.fixedFormatter).Format(formatter, space, event) r
prop C25
ensures literal: r == cat(space, formatter)
end
fn lname(level int) seq = ite(level == 5 || level == 10, "TRACE", ite(level == 15 || level == 20, "DEBUG", ite(level == 25 || level == 30, "INFO", ite(level == 40, "WARN", ite(level == 50, "ERROR", ite(level == 60, "FATAL", "UNKNOWN"))))))
contract (*plz/countlog/output/compact.timestampFormatter).Format(formatter, space, event) r
prop C25
requires event != nil
ensures stamp: r == cat(space, "[", lname(event.Level), "] [", timetext(event.Timestamp, "2006-01-02T15:04:05Z07:00"), "]")
end
contract (*plz/countlog/output/printf.formatter).Format(formatter, space, event) r
prop C25
requires event != nil && formatter != nil && formatter.logFmt != nil && formatter.messageFmt != nil
ensures prefix: r[:len(space)] == space
end

// C26: JSON log lines
fn jval(v int) seq = ite(v == nil, "null", encout(encoder(typeof(v)), ptrof(v)))
fn jstr(s seq) seq = cat("\"", jesc(s, len(s)), "\"")
rec fn jprops(ps seq, props seq, i int) seq = ite(i <= 0, empty, cat(jprops(ps, props, i-1), ",", as("plz/countlog/output/json.jsonFormatterProp", ps[i-1]).prefix, jval(props[as("plz/countlog/output/json.jsonFormatterProp", ps[i-1]).idx])))
contract (*plz/countlog/output/json.jsonFormatter).Format(formatter, space, event) r
prop C26
requires event != nil && formatter != nil && formatter.timestampEncoder != nil
requires forall(k, 0, len(formatter.props), 0 <= formatter.props[k].idx && formatter.props[k].idx < len(event.Properties))
// the encoders are those of the types
requires forall(k, 0, len(formatter.props), implies(formatter.props[k].valType != nil, formatter.props[k].encoder != nil))
requires forall(k, 0, len(formatter.props), implies(formatter.props[k].valType != nil, formatter.props[k].encoder == encfor(formatter.props[k].valType)))
ensures line: r == cat(old(space), formatter.prefix, jprops(formatter.props, event.Properties, len(formatter.props)), ",\"timestamp\":", encout(formatter.timestampEncoder, ptrof(box("int64", unixnano(event.Timestamp)))), formatter.suffix)
inv (b=space bytes, i int): 0 <= i && i <= len(formatter.props) && b == cat(old(space), formatter.prefix, jprops(formatter.props, event.Properties, i))
end

// the formatter of a log site
fn loctext(site int) seq
contract (*plz/countlog/spi.LogSite).Location(site) r
trusted the place in the code, made by fmt.Sprintf
ensures r == loctext(site)
end
fn jkey(v any) seq = cat(jstr(payload("string", v)), ":")
fn jpropok(p any, sample seq, k int) bool = p.idx == 2*k+1 && p.prefix == jkey(sample[p.idx-1])
contract (*plz/countlog/output/json.JsonFormat).FormatterOf(format, site) r
prop C26
requires site != nil && len(site.Sample) % 2 == 0 && forall(k, 0, len(site.Sample), implies(k % 2 == 0, typeof(site.Sample[k]) == typeid("string")))
ensures made: typeof(r) == typeid("*plz/countlog/output/json.jsonFormatter") && payload("*plz/countlog/output/json.jsonFormatter", r) != nil
ensures prefix: payload("*plz/countlog/output/json.jsonFormatter", r).prefix == cat("{\"event\":", jstr(site.Event))
ensures suffix: payload("*plz/countlog/output/json.jsonFormatter", r).suffix == cat(",\"location\":", jstr(loctext(site)), "}\n")
ensures stamp: payload("*plz/countlog/output/json.jsonFormatter", r).timestampEncoder == encoder(typeid("int64"))
ensures count: 2*len(payload("*plz/countlog/output/json.jsonFormatter", r).props) == len(site.Sample)
ensures keys: forall(k, 0, len(payload("*plz/countlog/output/json.jsonFormatter", r).props), jpropok(payload("*plz/countlog/output/json.jsonFormatter", r).props[k], site.Sample, k))
ensures encoders: forall(k, 0, len(payload("*plz/countlog/output/json.jsonFormatter", r).props), implies(payload("*plz/countlog/output/json.jsonFormatter", r).props[k].valType != nil, payload("*plz/countlog/output/json.jsonFormatter", r).props[k].encoder != nil && payload("*plz/countlog/output/json.jsonFormatter", r).props[k].encoder == encfor(payload("*plz/countlog/output/json.jsonFormatter", r).props[k].valType)))
inv (f=formatter ref, i int): f != nil && 2*len(f.props) == i && 0 <= i && i <= len(site.Sample)
inv (f=formatter ref, i int): f.prefix == cat("{\"event\":", jstr(site.Event)) && f.suffix == cat(",\"location\":", jstr(loctext(site)), "}\n") && f.timestampEncoder == encoder(typeid("int64"))
inv (f=formatter ref): forall(k, 0, len(f.props), jpropok(f.props[k], site.Sample, k))
inv (f=formatter ref): forall(k, 0, len(f.props), implies(f.props[k].valType != nil, f.props[k].encoder != nil && f.props[k].encoder == encfor(f.props[k].valType)))
end

// C23: event writers
fn sitefmt(f int, site int) int
contract (plz/countlog/output.Format).FormatterOf(recv, site) r
trusted makes the formatter of a log site
ensures r != nil && r == sitefmt(recv, site)
end
contract plz/countlog/output.NewEventWriter(cfg) r
prop C23
ensures r != nil && r.format == cfg.Format
ensures wrapped: typeof(r.writer) == typeid("*plz/countlog/output.recylceWriter") && payload("*plz/countlog/output.recylceWriter", r.writer) != nil
ensures dest: payload("*plz/countlog/output.recylceWriter", r.writer).writer == ite(cfg.Writer != nil, cfg.Writer, box("*os.File", global("os.Stdout")))
end
contract (*plz/countlog/output.EventWriter).HandlerOf(sink, site) r
prop C23
requires sink != nil && sink.format != nil
ensures typeof(r) == typeid("*plz/countlog/output.writeEvent") && payload("*plz/countlog/output.writeEvent", r) != nil
ensures handler: payload("*plz/countlog/output.writeEvent", r).site == site && payload("*plz/countlog/output.writeEvent", r).formatter == sitefmt(sink.format, site) && payload("*plz/countlog/output.writeEvent", r).writer == sink.writer
end
contract (*plz/countlog/output.writeEvent).LogSite(handler) r
prop C23
requires handler != nil
ensures site: r == handler.site
end
contract (*plz/countlog/output.writeEvent).Handle(handler, event)
prop C23
requires handler != nil && handler.formatter != nil && handler.writer != nil && global("plz/countlog/loglog.Error") != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest, ghost wowned, ghost wtext, ghost werr, ghost pooled, ghost hreports
ensures once: wcount == old(wcount) + 1 && wdest == handler.writer
ensures line: wtext == evtext(handler.formatter, event)
ensures owned: wowned
ensures reported: hreports == old(hreports) + ite(werr, 1, 0)
end
contract (*plz/countlog/output.recylceWriter).Write(writer, buf) n, err
prop C23
requires writer != nil && writer.writer != nil
modifies ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest, ghost wowned, ghost wtext, ghost werr, ghost pooled
ensures once: wcount == old(wcount) + 1 && wdest == writer.writer
ensures same: wtext == old(buf)
ensures owned: implies(old(pooled) != base(buf), wowned)
ensures error: iff(err != nil, werr)
end
