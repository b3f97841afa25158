"""Generates specs/countlog.gvc."""
out=['''// Events handed to event handlers. A sink is a handler installed by the user (anything but the
// root handlers of countlog, which wrap the sinks and contain their panics).
ghost hcalls int
ghost hpan int
ghost honpanic int
ghost hreports int
ghost hlevel int
ghost herr int
ghost hctx int
ghost hpb int
ghost hpo int
ghost hpl int
fn rooth(h int) bool = typeof(h) == typeid("*plz/countlog.oneHandler") || typeof(h) == typeid("*plz/countlog.statsAndOutput") || typeof(h) == typeid("*plz/countlog.redirector")
fn carried(e any) bool = hlevel == e.Level && herr == e.Error && hctx == e.Context && hpb == base(e.Properties) && hpo == offset(e.Properties) && hpl == len(e.Properties)

contract (plz/countlog/spi.EventHandler).Handle(recv, event)
trusted for sinks: handles the event, may panic, does not modify the event. For root handlers it repeats what their own contracts prove
requires event != nil
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl
maypanic not(rooth(recv))
ensures hpan >= old(hpan) && implies(not(rooth(recv)), hpan == old(hpan) && hcalls == old(hcalls) + 1)
ensures hcalls > old(hcalls) && implies(hpan == old(hpan), hcalls <= old(hcalls) + 2)
ensures implies(not(rooth(recv)), honpanic == old(honpanic) && hreports == old(hreports))
ensures event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && event.Properties == old(event.Properties) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties))
ensures carried(event)
xensures hpan == old(hpan) + 1 && hcalls == old(hcalls) + 1 && honpanic == old(honpanic) && hreports == old(hreports)
xensures event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && event.Properties == old(event.Properties) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties))
end

contract (*sync.Map).Load(m, key) value, ok
trusted a value found was stored, and only what Store requires is stored in the caches of plz
ensures implies(ok && root(m) == global("plz/countlog.handlerCache"), rooth(value))
ensures implies(ok && root(m) == global("plz/msgfmt.formatterCache"), fmtentry(value))
end
''']
out.append('''
contract (*sync.Map).Store(m, key, value)
trusted keeps the value
requires cached: implies(root(m) == global("plz/countlog.handlerCache"), rooth(value))
requires entry: implies(root(m) == global("plz/msgfmt.formatterCache"), fmtentry(value))
end

contract funcvalue:func(recovered interface{}, event *plz/countlog/spi.Event, site *plz/countlog/spi.LogSite) ~ (self, recovered, event, site)
trusted the panic handler of a root handler: nomalModeOnPanic and fallbackModeOnPanic satisfy it
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl
ensures hpan >= old(hpan) && hcalls >= old(hcalls) && honpanic > old(honpanic)
ensures event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && event.Properties == old(event.Properties) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties))
end

contract funcvalue:func(err error) ~ (self, err)
trusted loglog.Error: reports an error of the logger itself, does not panic
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl
ensures hreports == old(hreports) + 1 && hpan == old(hpan) && hcalls == old(hcalls) && honpanic == old(honpanic)
end

contract (plz/countlog/spi.EventSink).HandlerOf(recv, site) h
trusted creates the handler for a log site, does not panic, a writer always has one
ensures not(rooth(h)) && implies(recv == global("plz/countlog.EventWriter"), h != nil)
end

fn installed() bool = global("plz/countlog/loglog.Error") != nil && global("plz/countlog.EventWriter") != nil && global("plz/countlog.EventAggregator") != nil
fn onefine(handler any) bool = handler.onPanic != nil && handler.handler != nil && not(rooth(handler.handler))
fn twofine(handler any) bool = handler.onPanic != nil && handler.outputHandler != nil && not(rooth(handler.outputHandler)) && handler.statsHandler != nil && not(rooth(handler.statsHandler))

contract (*plz/countlog.oneHandler).Handle(handler, event)
prop C18
requires event != nil && handler != nil && onefine(handler)
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl
ensures once: implies(hpan == old(hpan), hcalls == old(hcalls) + 1 && carried(event))
ensures attempted: hcalls > old(hcalls)
ensures contained: implies(hpan > old(hpan), honpanic > old(honpanic))
ensures kept: event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties)) && event.Properties == old(event.Properties)
end

contract (*plz/countlog.statsAndOutput).Handle(handler, event)
prop C18
requires event != nil && handler != nil && twofine(handler)
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl
ensures once: implies(hpan == old(hpan), hcalls == old(hcalls) + ite(old(event.Level) >= old(global("plz/countlog/spi.MinCallLevel")), 2, 1) && carried(event))
ensures attempted: hcalls > old(hcalls)
ensures contained: implies(hpan > old(hpan), honpanic > old(honpanic))
ensures kept: event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties)) && event.Properties == old(event.Properties)
end

contract plz/countlog.fallbackModeOnPanic(recovered, event, site)
prop C18
requires installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl
ensures reported: hreports > old(hreports)
ensures quiet: hpan == old(hpan) && hcalls == old(hcalls)
end

contract plz/countlog.newRootHandler(site, onPanic) r
prop C18
requires site != nil && onPanic != nil && installed()
ensures root: typeof(r) == typeid("*plz/countlog.oneHandler") || typeof(r) == typeid("*plz/countlog.statsAndOutput")
ensures one: implies(typeof(r) == typeid("*plz/countlog.oneHandler"), onefine(payload("*plz/countlog.oneHandler", r)) && payload("*plz/countlog.oneHandler", r).onPanic == onPanic)
ensures two: implies(typeof(r) == typeid("*plz/countlog.statsAndOutput"), twofine(payload("*plz/countlog.statsAndOutput", r)) && payload("*plz/countlog.statsAndOutput", r).onPanic == onPanic)
end

contract plz/countlog.nomalModeOnPanic(recovered, event, site)
prop C18
requires event != nil && site != nil && installed()
modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl
ensures retried: hcalls > old(hcalls)
end
end
''')

MOD='modifies everything, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl'
KEPT='ensures kept: event.Level == old(event.Level) && event.Error == old(event.Error) && event.Context == old(event.Context) && base(event.Properties) == old(base(event.Properties)) && offset(event.Properties) == old(offset(event.Properties)) && event.Properties == old(event.Properties)\n'
out.append(f"""contract (*plz/countlog.redirector).Handle(redirector, event)
prop C18
requires event != nil && redirector != nil && installed()
{MOD}
ensures attempted: hcalls > old(hcalls)
ensures once: implies(hpan == old(hpan), hcalls <= old(hcalls) + 2 && carried(event))
{KEPT}end
""")
sent=lambda l,err,ctx: f'hcalls > old(hcalls) && implies(hpan == old(hpan), hcalls <= old(hcalls) + 2) && hlevel == {l} && herr == {err} && hctx == {ctx} && hpb == old(base(properties)) && hpo == old(offset(properties)) && hpl == len(properties)'
out.append(f"""fn delivered(l int, e int, c int, b int, o int, n int, was int, pan int) bool = hcalls > was && implies(hpan == pan, hcalls <= was + 2) && hlevel == l && herr == e && hctx == c && hpb == b && hpo == o && hpl == n
fn minlevel() int = global("plz/countlog/spi.MinLevel")
contract plz/countlog.newHandler(eventName, agg, ctx, properties) r
prop C17
requires installed()
ensures root: rooth(r)
end
contract plz/countlog.getHandler(event, agg, ctx, properties) r
prop C17
requires installed()
ensures root: rooth(r)
end
contract plz/countlog.log(level, eventName, agg, ctx, err, properties) r
prop C17
requires installed()
{MOD}
ensures delivered: delivered(level, err, box("*plz/countlog.Context", ctx), old(base(properties)), old(offset(properties)), len(properties), old(hcalls), old(hpan))
ensures result: (r == nil) == (err == nil)
end
contract plz/countlog.addMemo(level, eventName, agg, ctx, err, properties)
prop C17
requires implies(err != nil, installed())
ensures quiet: hcalls == old(hcalls)
end
""")
D=lambda l,e,c: f'delivered({l}, {e}, {c}, old(base(properties)), old(offset(properties)), len(properties), old(hcalls), old(hpan))'
NILC='box("*plz/countlog.Context", nil)'
THIS='box("*plz/countlog.Context", ctx)'
def emit(name,params,level,gated,call,ctx,recv=None,errlevel=40):
    key=f'(*plz/countlog.Context).{name}' if recv else f'plz/countlog.{name}'
    ps=(['ctx'] if recv else [])+params
    o=f"contract {key}({', '.join(ps)})"+(' r' if call else '')+"\nprop C17\nrequires installed()\n"
    if recv: o+="requires ctx != nil\n"
    o+=MOD+"\n"
    if call:
        o+=f"ensures failed: implies(err != nil, r != nil && {D(errlevel,'err',ctx)})\n"
        o+=f"ensures off: implies(err == nil && old(minlevel()) > {level}, r == nil && hcalls == old(hcalls))\n"
        o+=f"ensures on: implies(err == nil && old(minlevel()) <= {level}, r == nil && {D(level,'nil',ctx)})\n"
    elif recv and name=='Trace':
        o+=f"ensures off: implies(old(minlevel()) > {level} || old(ctx.suppressedMinLevel) > {level}, hcalls == old(hcalls))\n"
        o+=f"ensures on: implies(old(minlevel()) <= {level} && old(ctx.suppressedMinLevel) <= {level}, {D(level,'nil',ctx)})\n"
    elif gated:
        o+=f"ensures off: implies(old(minlevel()) > {level}, hcalls == old(hcalls))\n"
        o+=f"ensures on: implies(old(minlevel()) <= {level}, {D(level,'nil',ctx)})\n"
    else:
        o+=f"ensures on: {D(level,'nil',ctx)}\n"
    o+="end\n"
    out.append(o)
for recv,ctx in ((None,NILC),('ctx',THIS)):
    for n,l in (('Trace',10),('Debug',20),('Info',30)):
        emit(n,['event','properties'],l,True,False,ctx,recv)
        emit(n+'Call',['event','err','properties'],l,True,True,ctx,recv)
    for n,l in (('Warn',40),('Error',50),('Fatal',60)):
        emit(n,['event','properties'],l,False,False,ctx,recv)
emit('Log',['level','event','properties'],'level',True,False,NILC)
emit('LogAccess',['event','err','properties'],30,True,True,THIS,'ctx',50)
out.append("""contract plz/countlog.ShouldLog(level) r
prop C17
ensures r == (level >= minlevel())
end
contract plz/countlog.SetMinLevel(level)
prop C17
modifies *globalptr("plz/countlog/spi.MinLevel"), *globalptr("plz/countlog/spi.MinCallLevel")
ensures min: minlevel() == level
ensures call: implies(level < 1<<62 && level > 0 - 1<<62, global("plz/countlog/spi.MinCallLevel") == level + 5)
end
""")
open('/verif/specs/countlog.gvc','w').write('\n'.join(out))
