// Events handed to event handlers. A sink is a handler installed by the user (anything but the
// root handlers of countlog, which wrap the sinks and contain their panics).
ghost hcalls int
ghost hpan int
ghost honpanic int
ghost hreports int
ghost hlevel int
ghost herr int
ghost hctx int
ghost hpb int
ghost hpo int
ghost hpl int
ghost hprops seq
fn rooth(h int) bool = typeof(h) == typeid("*plz/countlog.oneHandler") || typeof(h) == typeid("*plz/countlog.statsAndOutput") || typeof(h) == typeid("*plz/countlog.redirector")
fn carried(e any) bool = hlevel == e.Level && herr == e.Error && hctx == e.Context && hpb == base(e.Properties) && hpo == offset(e.Properties) && hpl == len(e.Properties) && hprops == e.Properties

contract (plz/countlog/spi.EventHandler).Handle(recv, event)
trusted for sinks: handles the event, may panic, does not modify the event. For root handlers it repeats what their own contracts prove
requires event != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
maypanic not(rooth(recv))
ensures hpan >= old(hpan) && implies(not(rooth(recv)), hpan == old(hpan) && hcalls == old(hcalls) + 1)
ensures hcalls > old(hcalls) && implies(hpan == old(hpan), hcalls <= old(hcalls) + 2)
ensures implies(not(rooth(recv)), honpanic == old(honpanic) && hreports == old(hreports))
ensures event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && event.Properties == old(event.Properties) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties))
ensures carried(event)
xensures hpan == old(hpan) + 1 && hcalls == old(hcalls) + 1 && honpanic == old(honpanic) && hreports == old(hreports)
xensures event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && event.Properties == old(event.Properties) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties))
ensures installed: implies(old(installed()), installed())
xensures implies(old(installed()), installed())
end

// the event name in a key of the cache of handlers, and the one a handler was made for
fn keyname(k any) seq = ite(typeof(k) == typeid("string"), payload("string", k), payload("plz/countlog.accurateHandlerKey", k).Event)
fn hname(v any) seq = ite(typeof(v) == typeid("*plz/countlog.redirector"), as("*plz/countlog.redirector", payload("*plz/countlog.redirector", v)).site.Event, ite(typeof(v) == typeid("*plz/countlog.oneHandler"), as("*plz/countlog.oneHandler", payload("*plz/countlog.oneHandler", v)).site.Event, as("*plz/countlog.statsAndOutput", payload("*plz/countlog.statsAndOutput", v)).site.Event))
contract (*sync.Map).Load(m, key) value, ok
trusted a value found was stored, and only what Store requires is stored in the caches of plz
ensures implies(ok && root(m) == global("plz/countlog.handlerCache"), rooth(value))
ensures implies(ok && root(m) == global("plz/msgfmt.formatterCache"), fmtentry(value))
end


contract (*sync.Map).Store(m, key, value)
trusted keeps the value
requires cached: implies(root(m) == global("plz/countlog.handlerCache"), rooth(value))
requires named: implies(root(m) == global("plz/countlog.handlerCache"), keyname(key) == hname(value))
requires entry: implies(root(m) == global("plz/msgfmt.formatterCache"), fmtentry(value))
end

contract funcvalue:func(recovered interface{}, event *plz/countlog/spi.Event, site *plz/countlog/spi.LogSite) ~ (self, recovered, event, site)
trusted the panic handler of a root handler: nomalModeOnPanic and fallbackModeOnPanic satisfy it
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures hpan >= old(hpan) && hcalls >= old(hcalls) && honpanic > old(honpanic)
ensures event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && event.Properties == old(event.Properties) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties))
ensures installed: implies(old(installed()), installed())
end

contract funcvalue:func(err error) ~ (self, err)
trusted loglog.Error: reports an error of the logger itself, does not panic
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures hreports == old(hreports) + 1 && hpan == old(hpan) && hcalls == old(hcalls) && honpanic == old(honpanic) && global("plz/countlog/loglog.Error") == old(global("plz/countlog/loglog.Error"))
ensures installed: implies(old(installed()), installed())
end

contract (plz/countlog/spi.EventSink).HandlerOf(recv, site) h
trusted creates the handler for a log site, does not panic, a writer always has one
ensures not(rooth(h)) && implies(recv == global("plz/countlog.EventWriter"), h != nil)
end

fn installed() bool = global("plz/countlog/loglog.Error") != nil && global("plz/countlog.EventWriter") != nil && global("plz/countlog.EventAggregator") != nil
fn onefine(handler any) bool = handler.onPanic != nil && handler.handler != nil && not(rooth(handler.handler))
fn twofine(handler any) bool = handler.onPanic != nil && handler.outputHandler != nil && not(rooth(handler.outputHandler)) && handler.statsHandler != nil && not(rooth(handler.statsHandler))

contract (*plz/countlog.oneHandler).Handle(handler, event)
prop C18
requires event != nil && handler != nil && onefine(handler)
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures once: implies(hpan == old(hpan), hcalls == old(hcalls) + 1 && carried(event))
ensures attempted: hcalls > old(hcalls)
ensures contained: implies(hpan > old(hpan), honpanic > old(honpanic))
ensures kept: event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties)) && event.Properties == old(event.Properties)
ensures installed: implies(old(installed()), installed())
end

contract (*plz/countlog.statsAndOutput).Handle(handler, event)
prop C18
requires event != nil && handler != nil && twofine(handler)
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures once: implies(hpan == old(hpan), hcalls == old(hcalls) + ite(old(event.Level) >= old(global("plz/countlog/spi.MinCallLevel")), 2, 1) && carried(event))
ensures attempted: hcalls > old(hcalls)
ensures contained: implies(hpan > old(hpan), honpanic > old(honpanic))
ensures kept: event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties)) && event.Properties == old(event.Properties)
ensures installed: implies(old(installed()), installed())
end

contract plz/countlog.fallbackModeOnPanic(recovered, event, site)
prop C18
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures reported: hreports > old(hreports)
ensures quiet: hpan == old(hpan) && hcalls == old(hcalls)
ensures installed: implies(old(installed()), installed())
end

contract plz/countlog.newRootHandler(site, onPanic) r
prop C18
requires site != nil && onPanic != nil && installed()
ensures root: typeof(r) == typeid("*plz/countlog.oneHandler") || typeof(r) == typeid("*plz/countlog.statsAndOutput")
ensures one: implies(typeof(r) == typeid("*plz/countlog.oneHandler"), onefine(payload("*plz/countlog.oneHandler", r)) && payload("*plz/countlog.oneHandler", r).onPanic == onPanic)
ensures named: hname(r) == site.Event
ensures two: implies(typeof(r) == typeid("*plz/countlog.statsAndOutput"), twofine(payload("*plz/countlog.statsAndOutput", r)) && payload("*plz/countlog.statsAndOutput", r).onPanic == onPanic)
end

contract plz/countlog.nomalModeOnPanic(recovered, event, site)
prop C18
requires event != nil && site != nil && installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures retried: hcalls > old(hcalls)
ensures installed: implies(old(installed()), installed())
end
end

contract (*plz/countlog.redirector).Handle(redirector, event)
prop C18
requires event != nil && redirector != nil && installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures attempted: hcalls > old(hcalls)
ensures once: implies(hpan == old(hpan), hcalls <= old(hcalls) + 2 && carried(event))
ensures kept: event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties)) && event.Properties == old(event.Properties)
ensures installed: implies(old(installed()), installed())
end

fn delivered(l int, e int, c int, b int, o int, n int, p seq, was int, pan int) bool = hcalls > was && implies(hpan == pan, hcalls <= was + 2) && hlevel == l && herr == e && hctx == c && hpb == b && hpo == o && hpl == n && hprops == p
fn minlevel() int = global("plz/countlog/spi.MinLevel")
contract plz/countlog.newHandler(eventName, agg, ctx, properties) r
prop C17
requires installed()
ensures root: rooth(r)
end
contract plz/countlog.getHandler(event, agg, ctx, properties) r
prop C17
requires installed()
ensures root: rooth(r)
end
contract plz/countlog.log(level, eventName, agg, ctx, err, properties) r
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures delivered: delivered(level, err, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan))
ensures result: (r == nil) == (err == nil)
ensures installed: implies(old(installed()), installed())
end
contract plz/countlog.addMemo(level, eventName, agg, ctx, err, properties)
prop C17
requires implies(err != nil, installed())
ensures quiet: hcalls == old(hcalls)
end

contract plz/countlog.Trace(event, properties)
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures off: implies(old(minlevel()) > 10, hcalls == old(hcalls))
ensures on: implies(old(minlevel()) <= 10, delivered(10, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract plz/countlog.TraceCall(event, err, properties) r
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures failed: implies(err != nil, r != nil && delivered(40, err, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures off: implies(err == nil && old(minlevel()) > 10, r == nil && hcalls == old(hcalls))
ensures on: implies(err == nil && old(minlevel()) <= 10, r == nil && delivered(10, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract plz/countlog.Debug(event, properties)
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures off: implies(old(minlevel()) > 20, hcalls == old(hcalls))
ensures on: implies(old(minlevel()) <= 20, delivered(20, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures installed: implies(old(installed()), installed())
end

contract plz/countlog.DebugCall(event, err, properties) r
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures failed: implies(err != nil, r != nil && delivered(40, err, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures off: implies(err == nil && old(minlevel()) > 20, r == nil && hcalls == old(hcalls))
ensures on: implies(err == nil && old(minlevel()) <= 20, r == nil && delivered(20, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract plz/countlog.Info(event, properties)
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures off: implies(old(minlevel()) > 30, hcalls == old(hcalls))
ensures on: implies(old(minlevel()) <= 30, delivered(30, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures installed: implies(old(installed()), installed())
end

contract plz/countlog.InfoCall(event, err, properties) r
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures failed: implies(err != nil, r != nil && delivered(40, err, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures off: implies(err == nil && old(minlevel()) > 30, r == nil && hcalls == old(hcalls))
ensures on: implies(err == nil && old(minlevel()) <= 30, r == nil && delivered(30, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract plz/countlog.Warn(event, properties)
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures on: delivered(40, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan))
end

contract plz/countlog.Error(event, properties)
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures on: delivered(50, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan))
ensures installed: implies(old(installed()), installed())
end

contract plz/countlog.Fatal(event, properties)
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures on: delivered(60, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan))
ensures installed: implies(old(installed()), installed())
end

contract (*plz/countlog.Context).Trace(ctx, event, properties)
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures off: implies(old(minlevel()) > 10 || old(ctx.suppressedMinLevel) > 10, hcalls == old(hcalls))
ensures on: implies(old(minlevel()) <= 10 && old(ctx.suppressedMinLevel) <= 10, delivered(10, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract (*plz/countlog.Context).TraceCall(ctx, event, err, properties) r
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures failed: implies(err != nil, r != nil && delivered(40, err, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures off: implies(err == nil && old(minlevel()) > 10, r == nil && hcalls == old(hcalls))
ensures on: implies(err == nil && old(minlevel()) <= 10, r == nil && delivered(10, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract (*plz/countlog.Context).Debug(ctx, event, properties)
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures off: implies(old(minlevel()) > 20, hcalls == old(hcalls))
ensures on: implies(old(minlevel()) <= 20, delivered(20, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract (*plz/countlog.Context).DebugCall(ctx, event, err, properties) r
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures failed: implies(err != nil, r != nil && delivered(40, err, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures off: implies(err == nil && old(minlevel()) > 20, r == nil && hcalls == old(hcalls))
ensures on: implies(err == nil && old(minlevel()) <= 20, r == nil && delivered(20, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract (*plz/countlog.Context).Info(ctx, event, properties)
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures off: implies(old(minlevel()) > 30, hcalls == old(hcalls))
ensures on: implies(old(minlevel()) <= 30, delivered(30, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract (*plz/countlog.Context).InfoCall(ctx, event, err, properties) r
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures failed: implies(err != nil, r != nil && delivered(40, err, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures off: implies(err == nil && old(minlevel()) > 30, r == nil && hcalls == old(hcalls))
ensures on: implies(err == nil && old(minlevel()) <= 30, r == nil && delivered(30, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract (*plz/countlog.Context).Warn(ctx, event, properties)
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures on: delivered(40, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan))
end

contract (*plz/countlog.Context).Error(ctx, event, properties)
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures on: delivered(50, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan))
end

contract (*plz/countlog.Context).Fatal(ctx, event, properties)
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures on: delivered(60, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan))
end

contract plz/countlog.Log(level, event, properties)
prop C17
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures off: implies(old(minlevel()) > level, hcalls == old(hcalls))
ensures on: implies(old(minlevel()) <= level, delivered(level, nil, box("*plz/countlog.Context", nil), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract (*plz/countlog.Context).LogAccess(ctx, event, err, properties) r
prop C17
requires installed()
requires ctx != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures failed: implies(err != nil, r != nil && delivered(50, err, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
ensures off: implies(err == nil && old(minlevel()) > 30, r == nil && hcalls == old(hcalls))
ensures on: implies(err == nil && old(minlevel()) <= 30, r == nil && delivered(30, nil, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(properties), old(hcalls), old(hpan)))
end

contract plz/countlog.ShouldLog(level) r
prop C17
ensures r == (level >= minlevel())
end
contract plz/countlog.SetMinLevel(level)
prop C17
modifies *globalptr("plz/countlog/spi.MinLevel"), *globalptr("plz/countlog/spi.MinCallLevel")
ensures min: minlevel() == level
ensures call: implies(level < 1<<62 && level > 0 - 1<<62, global("plz/countlog/spi.MinCallLevel") == level + 5)
end
