// C19: counting events.
guarded type:plz/countlog/stats.MapMonoid held held
fn ptrof(m int) int = payload("*plz/countlog/stats.CounterMonoid", m)
fn count(m int) int = cell("plz/countlog/stats.CounterMonoid", ptrof(m))
fn iscounter(m int) bool = typeof(m) == typeid("*plz/countlog/stats.CounterMonoid") && ptrof(m) != nil
// the values of a shard are counters, and no two keys share one
fn countersok(s any) bool = forall(k, implies(haskey(s, k), iscounter(s[k]))) && forall(a, forall(b, implies(haskey(s, a) && haskey(s, b) && a != b, ptrof(s[a]) != ptrof(s[b]))))
fn countat(s any, k int) int = ite(haskey(s, k), count(s[k]), 0)
fn onedim(x int) int
contract plz/countlog/stats.NewCounterMonoid() r
prop C19
ensures zero: iscounter(r) && fresh(ptrof(r)) && count(r) == 0
end
contract funcvalue:func() plz/countlog/stats.Monoid ~ (self)  r
trusted NewCounterMonoid, which satisfies it
ensures iscounter(r) && fresh(ptrof(r)) && count(r) == 0
end
contract (*plz/countlog/stats.CounterMonoid).Add(monoid, that)
prop C19
requires monoid != nil && iscounter(that)
modifies *monoid
ensures added: cell("plz/countlog/stats.CounterMonoid", monoid) == (old(cell("plz/countlog/stats.CounterMonoid", monoid)) + old(count(that))) % 18446744073709551616
end
contract (*plz/countlog/stats.CounterMonoid).Export(monoid) r
prop C19
requires monoid != nil
modifies *monoid
ensures value: r == fl64(old(cell("plz/countlog/stats.CounterMonoid", monoid)))
ensures reset: cell("plz/countlog/stats.CounterMonoid", monoid) == 0
end
fn shardsok(w any) bool = forall(k, 0, 16, w.shards[k].lock != nil && w.shards[k].MapMonoid != nil)
contract (*plz/countlog/stats.Window).Mutate(window) lock, shard
prop C19
requires window != nil
ensures mine: lock == window.shards[gid % 16].lock && shard == window.shards[gid % 16].MapMonoid
end

// the key an event is counted under
fn dimof(x int, e int) int
contract (plz/countlog/stats.dimensionExtractor).Extract(recv, event, monoid, createElem) r
trusted for extractors with dimensions (checked by the harness); dimensionExtractor0 satisfies it
requires recv != nil && monoid != nil && createElem != nil && countersok(monoid)
requires locked: held
modifies map(monoid)
maypanic true
ensures haskey(monoid, dimof(recv, event)) && monoid[dimof(recv, event)] == r
ensures implies(old(haskey(monoid, dimof(recv, event))), r == old(monoid[dimof(recv, event)]))
ensures implies(not(old(haskey(monoid, dimof(recv, event)))), iscounter(r) && fresh(ptrof(r)) && count(r) == 0)
ensures forall(k, implies(k != dimof(recv, event), iff(haskey(monoid, k), old(haskey(monoid, k))) && implies(haskey(monoid, k), monoid[k] == old(monoid[k]))))
xensures forall(k, iff(haskey(monoid, k), old(haskey(monoid, k))) && implies(haskey(monoid, k), monoid[k] == old(monoid[k])))
end
contract (*plz/countlog/stats.dimensionExtractor0).Extract(extractor, event, monoid, createElem) r
prop C19
requires monoid != nil && createElem != nil && countersok(monoid)
requires locked: held
modifies map(monoid)
let K: box("int", 0)
ensures found: haskey(monoid, K) && monoid[K] == r
ensures old: implies(old(haskey(monoid, K)), r == old(monoid[K]))
ensures new: implies(not(old(haskey(monoid, K))), iscounter(r) && fresh(ptrof(r)) && count(r) == 0)
ensures others: implies(onedim(0) != K, iff(haskey(monoid, onedim(0)), old(haskey(monoid, onedim(0)))) && implies(haskey(monoid, onedim(0)), monoid[onedim(0)] == old(monoid[onedim(0)])))
end
contract (*plz/countlog/stats.countEvent).Handle(state, event)
prop C19
requires state != nil && state.Window != nil && state.extractor != nil && shardsok(state.Window) && countersok(state.Window.shards[gid % 16].MapMonoid) && not(held)
let M: state.Window.shards[gid % 16].MapMonoid
let K: dimof(state.extractor, event)
let X: onedim(0)
modifies map(state.Window.shards[gid % 16].MapMonoid), *ptrof(state.Window.shards[gid % 16].MapMonoid[dimof(state.extractor, event)]), ghost held, ghost mutexlist
maypanic true
ensures counted: countat(M, K) == (old(countat(M, K)) + 1) % 18446744073709551616
ensures others: implies(X != K, countat(M, X) == old(countat(M, X)))
ensures released: not(held)
ensures mine: len(mutexlist) == len(old(mutexlist)) + 1 && mutexlist[len(old(mutexlist))] == state.Window.shards[gid % 16].lock
ensures keeps: countersok(M)
xensures unlocked: not(held)
xensures same: countat(M, X) == old(countat(M, X))
end

// exporting: what is collected for the counter at the key X
ghost exported int
ghost exportedvalue real
ghost pending bool
ghost collected int
ghost collectedvalue real
ghost collectedevent seq
ghost collecteddims int
contract (plz/countlog/stats.Monoid).Export(recv) r
trusted repeats what is proved of CounterMonoid.Export, and notes the export
requires iscounter(recv)
requires collected: not(pending)
modifies *ptrof(recv), ghost exported, ghost exportedvalue, ghost pending
ensures r == fl64(old(count(recv))) && count(recv) == 0
ensures exported == recv && exportedvalue == r && pending
end
fn thekey(x int) int
ghost target int
contract (plz/countlog/stats.Collector).Collect(recv, point)
trusted takes a point, does not touch the window
requires recv != nil && point != nil
requires value: pending && point.Value == exportedvalue
requires locked: held
modifies ghost pending, ghost collected, ghost collectedvalue, ghost collectedevent, ghost collecteddims
ensures not(pending)
ensures implies(ptrof(exported) == target, collected == old(collected) + 1 && collectedvalue == point.Value && collectedevent == point.Event && collecteddims == len(point.Dimension))
ensures implies(ptrof(exported) != target, collected == old(collected) && collectedvalue == old(collectedvalue) && collectedevent == old(collectedevent) && collecteddims == old(collecteddims))
end
contract (*plz/countlog/stats.Window).exportShard(window, now, shard)
prop C19
requires window != nil && window.collector != nil && window.dimensionElemCount >= 0 && shard.lock != nil && shard.MapMonoid != nil && countersok(shard.MapMonoid) && not(held) && not(pending) && len(shard.MapMonoid) * window.dimensionElemCount < 140737488355328
let M: shard.MapMonoid
let X: onedim(0)
let H: haskey(M, X) && target == ptrof(M[X])
modifies all plz/countlog/stats.CounterMonoid, all M:string, ghost held, ghost mutexlist, ghost exported, ghost exportedvalue, ghost pending, ghost collected, ghost collectedvalue, ghost collectedevent, ghost collecteddims
ensures once: implies(H, collected == old(collected) + 1)
ensures value: implies(H, collectedvalue == fl64(old(countat(M, X))))
ensures point: implies(H, collectedevent == window.event && collecteddims == window.dimensionElemCount)
ensures reset: implies(H, countat(M, X) == 0)
ensures released: not(held) && not(pending)
ensures mine: mutexlist == cat(old(mutexlist), unit(shard.lock))
inv (v set): implies(H, implies(not(member(v, X)), collected == old(collected) && count(M[X]) == old(count(M[X]))) && implies(member(v, X), collected == old(collected) + 1 && collectedvalue == fl64(old(countat(M, X))) && count(M[X]) == 0 && collectedevent == window.event && collecteddims == window.dimensionElemCount))
inv (s=space slice, n=visitednum int): 0 <= n && n <= len(M) && len(s) == (len(M) - n) * window.dimensionElemCount
inv state: held && not(pending) && mutexlist == cat(old(mutexlist), unit(shard.lock))
end
contract (*plz/countlog/stats.Window).Export(window, now)
prop C19
requires window != nil && window.collector != nil && window.dimensionElemCount >= 0 && shardsok(window) && not(held) && not(pending)
requires forall(k, 0, 16, countersok(window.shards[k].MapMonoid) && len(window.shards[k].MapMonoid) * window.dimensionElemCount < 140737488355328)
modifies all plz/countlog/stats.CounterMonoid, all M:string, ghost held, ghost mutexlist, ghost exported, ghost exportedvalue, ghost pending, ghost collected, ghost collectedvalue, ghost collectedevent, ghost collecteddims
ensures every: len(mutexlist) == len(old(mutexlist)) + 16 && forall(k, 0, 16, mutexlist[len(old(mutexlist)) + k] == window.shards[k].lock)
ensures released: not(held) && not(pending)
inv (i int): 0 <= i && i <= 16 && len(mutexlist) == len(old(mutexlist)) + i && forall(k, 0, i, mutexlist[len(old(mutexlist)) + k] == window.shards[k].lock)
inv state: not(held) && not(pending)
end
contract funcvalue:plz/countlog/stats.Executor ~ (self, handler)
trusted runs or starts the function, which exports the window; a new window has nothing to export
modifies ghost held, ghost mutexlist
ensures held == old(held)
end
fn emptyshards(w any) bool = forall(k, 0, 16, len(w.shards[k].MapMonoid) == 0 && not(haskey(w.shards[k].MapMonoid, onedim(0))))
contract plz/countlog/stats.newWindow(executor, collector, event, dimensionElemCount) r
prop C19
requires executor != nil
modifies ghost held, ghost mutexlist
ensures fields: fresh(r) && r.collector == collector && r.event == event && r.dimensionElemCount == dimensionElemCount
ensures shards: shardsok(r)
ensures empty: emptyshards(r)
ensures distinct: forall(k, 0, 16, forall(j, 0, k, r.shards[j].MapMonoid != r.shards[k].MapMonoid && r.shards[j].lock != r.shards[k].lock))
end
fn cev(r int) any = as("*plz/countlog/stats.countEvent", payload("*plz/countlog/stats.countEvent", r))
fn extractorof(site int) int
contract plz/countlog/stats.newDimensionExtractor(site) r, n
trusted checked by the harness; reads the sample of the log site
ensures r != nil && n >= 0 && r == extractorof(site)
maypanic true
end
contract (*plz/countlog/stats.EventAggregator).createHandler(aggregator, agg, site) r
prop C19
requires aggregator != nil && aggregator.executor != nil && site != nil
modifies ghost held, ghost mutexlist
maypanic true
ensures disabled: implies(aggregator.collector == nil, typeof(r) == typeid("*plz/countlog/spi.DummyEventHandler"))
ensures counter: implies(aggregator.collector != nil && agg == "counter", typeof(r) == typeid("*plz/countlog/stats.countEvent") && fresh(payload("*plz/countlog/stats.countEvent", r)) && cev(r).site == site && cev(r).extractor == extractorof(site))
ensures window: implies(aggregator.collector != nil && agg == "counter", cev(r).Window.collector == aggregator.collector && cev(r).Window.event == site.Event && shardsok(cev(r).Window) && emptyshards(cev(r).Window))
ensures unknown: implies(aggregator.collector != nil && agg != "counter", r == nil)
end
contract (*plz/countlog/stats.EventAggregator).HandlerOf(aggregator, site) r
prop C19
requires aggregator != nil && aggregator.executor != nil && site != nil
modifies ghost held, ghost mutexlist
maypanic site.Agg != "" || len(site.Sample) % 2 != 0 || exists(k, 0, len(site.Sample), k % 2 == 0 && (typeof(site.Sample[k]) != typeid("string") || payload("string", site.Sample[k]) == "agg"))
ensures counter: implies(aggregator.collector != nil && r != nil, typeof(r) == typeid("*plz/countlog/stats.countEvent") && cev(r).site == site && cev(r).extractor == extractorof(site) && cev(r).Window.collector == aggregator.collector && cev(r).Window.event == site.Event && shardsok(cev(r).Window) && emptyshards(cev(r).Window))
ensures named: implies(aggregator.collector != nil && site.Agg == "counter", r != nil)
ensures disabled: implies(aggregator.collector == nil && r != nil, typeof(r) == typeid("*plz/countlog/spi.DummyEventHandler"))
ensures uncounted: implies(site.Agg == "" && forall(k, 0, len(site.Sample), implies(k % 2 == 0, payload("string", site.Sample[k]) != "agg")), r == nil)
ensures sampled: forall(a, 0, len(site.Sample), implies(aggregator.collector != nil && site.Agg == "" && a % 2 == 0 && payload("string", site.Sample[a]) == "agg" && payload("string", site.Sample[a+1]) == "counter" && forall(k, 0, a, implies(k % 2 == 0, payload("string", site.Sample[k]) != "agg")), r != nil))
inv (i int): 0 <= i && i % 2 == 0 && forall(k, 0, i, implies(k % 2 == 0, payload("string", site.Sample[k]) != "agg"))
end
contract (plz/countlog/stats.Monoid).Add(recv, that)
trusted repeats what is proved of CounterMonoid.Add
requires iscounter(recv) && iscounter(that)
modifies *ptrof(recv)
ensures count(recv) == (old(count(recv)) + old(count(that))) % 18446744073709551616
end
