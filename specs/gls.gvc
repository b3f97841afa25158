// C16: goroutine-local storage. gid: the id of this goroutine.
ghost gid int
// a shard's lock is held for reading (or writing), for writing
ghost rheld bool
ghost wheld bool
guarded type:plz/gls.globalMapType rheld wheld
// the lock taken last
ghost lastlock int
ghost fcalls int
ghost fstorage int
ghost fpanic bool
contract plz/gls.GoID() r
trusted assembly: the id of this goroutine
ensures r == gid && r > 0
end
contract (*sync.RWMutex).Lock(m)
trusted
requires free: not(rheld)
modifies ghost rheld, ghost wheld, ghost lastlock
ensures rheld && wheld && lastlock == m
end
contract (*sync.RWMutex).Unlock(m)
trusted
requires held: rheld && wheld
modifies ghost rheld, ghost wheld
ensures not(rheld) && not(wheld)
end
contract (*sync.RWMutex).RLock(m)
trusted
requires free: not(rheld)
modifies ghost rheld, ghost lastlock
ensures rheld && lastlock == m
end
contract (*sync.RWMutex).RUnlock(m)
trusted
requires held: rheld && not(wheld)
modifies ghost rheld
ensures not(rheld)
end
fn glsok(x int) bool = len(global("plz/gls.globalMaps")) == 16 && len(global("plz/gls.globalLocks")) == 16 && forall(k, 0, 16, global("plz/gls.globalMaps")[k] != nil && global("plz/gls.globalLocks")[k] != nil)
fn stored(id int) bool = haskey(global("plz/gls.globalMaps")[id % 16], id)
fn storage(id int) int = global("plz/gls.globalMaps")[id % 16][id]
fn anyid(x int) int
contract plz/gls.ResetGls(goid, initialValue)
prop C16
requires goid >= 0 && glsok(0) && not(rheld) && not(wheld)
modifies map(global("plz/gls.globalMaps")[goid % 16]), ghost lastlock, ghost rheld, ghost wheld
ensures set: stored(goid) && storage(goid) == initialValue
ensures others: implies(anyid(0) != goid && anyid(0) >= 0, iff(stored(anyid(0)), old(stored(anyid(0)))) && implies(stored(anyid(0)), storage(anyid(0)) == old(storage(anyid(0)))))
ensures released: not(rheld) && not(wheld)
ensures samelock: lastlock == global("plz/gls.globalLocks")[goid % 16]
end
contract plz/gls.DeleteGls(goid)
prop C16
requires goid >= 0 && glsok(0) && not(rheld) && not(wheld)
modifies map(global("plz/gls.globalMaps")[goid % 16]), ghost lastlock, ghost rheld, ghost wheld
ensures deleted: not(stored(goid))
ensures others: implies(anyid(0) != goid && anyid(0) >= 0, iff(stored(anyid(0)), old(stored(anyid(0)))) && implies(stored(anyid(0)), storage(anyid(0)) == old(storage(anyid(0)))))
ensures released: not(rheld) && not(wheld)
ensures samelock: lastlock == global("plz/gls.globalLocks")[goid % 16]
end
contract plz/gls.GetGls(goid) r
prop C16
requires goid >= 0 && glsok(0) && not(rheld) && not(wheld)
modifies ghost lastlock, ghost rheld
ensures storage: r == ite(stored(goid), storage(goid), nil)
ensures released: not(rheld) && not(wheld)
ensures samelock: lastlock == global("plz/gls.globalLocks")[goid % 16]
end
contract plz/gls.Get(key) r
prop C16
requires glsok(0) && not(rheld) && not(wheld)
modifies ghost lastlock, ghost rheld
ensures value: r == ite(stored(gid) && storage(gid) != nil && haskey(storage(gid), key), storage(gid)[key], nil)
ensures released: not(rheld) && not(wheld)
ensures samelock: lastlock == global("plz/gls.globalLocks")[gid % 16]
end
contract plz/gls.IsGlsEnabled(goid) r
prop C16
requires goid >= 0 && glsok(0) && not(rheld) && not(wheld)
modifies ghost lastlock, ghost rheld
ensures r == (stored(goid) && storage(goid) != nil)
ensures released: not(rheld) && not(wheld)
ensures samelock: lastlock == global("plz/gls.globalLocks")[goid % 16]
end
contract plz/gls.Set(key, value)
prop C16
requires glsok(0) && not(rheld) && not(wheld)
modifies map(storage(gid)), ghost lastlock, ghost rheld
panics not(stored(gid)) || storage(gid) == nil
ensures set: haskey(storage(gid), key) && storage(gid)[key] == value
ensures others: implies(anyid(0) != key, iff(haskey(storage(gid), anyid(0)), old(haskey(storage(gid), anyid(0)))) && storage(gid)[anyid(0)] == old(storage(gid)[anyid(0)]))
ensures released: not(rheld) && not(wheld)
ensures samelock: lastlock == global("plz/gls.globalLocks")[gid % 16]
end

// the function given to WithGls: what storage its goroutine had when it was called
contract funcvalue:func() ~ (self)
trusted the function of a goroutine, may panic; does not hold the locks of the shards
requires unlocked: not(rheld) && not(wheld)
modifies everything, ghost fcalls, ghost fstorage, ghost fpanic
maypanic true
ensures fcalls == old(fcalls) + 1 && fstorage == old(ite(stored(gid), storage(gid), nil)) && not(fpanic)
xensures fcalls == old(fcalls) + 1 && fstorage == old(ite(stored(gid), storage(gid), nil)) && fpanic
ensures global("plz/gls.globalMaps") == old(global("plz/gls.globalMaps")) && global("plz/gls.globalLocks") == old(global("plz/gls.globalLocks"))
xensures global("plz/gls.globalMaps") == old(global("plz/gls.globalMaps")) && global("plz/gls.globalLocks") == old(global("plz/gls.globalLocks"))
end
fn copyof(v int) int
contract (plz/gls.copiable).Copy(recv) r
trusted copies
requires recv != nil
ensures r == copyof(recv)
end
fn childof(v int) int = ite(v != nil && implements("plz/gls.copiable", v), copyof(v), v)
contract plz/gls.WithGls(f) r
prop C16
requires glsok(0) && not(rheld) && not(wheld)
modifies ghost lastlock, ghost rheld
let H: stored(gid) && haskey(storage(gid), anyid(0))
let V: storage(gid)[anyid(0)]
ensures fresh: captured(r, "type:map[interface{}]interface{}") != nil && fresh(captured(r, "type:map[interface{}]interface{}"))
ensures same: captured(r, "type:func()") == f
ensures keys: iff(haskey(captured(r, "type:map[interface{}]interface{}"), anyid(0)), H)
ensures values: implies(H, captured(r, "type:map[interface{}]interface{}")[anyid(0)] == childof(V))
inv (v set): implies(member(v, anyid(0)), H)
inv (v set, c map): iff(haskey(c, anyid(0)), member(v, anyid(0))) && implies(member(v, anyid(0)), c[anyid(0)] == childof(V))
end
contract plz/gls.WithGls$1()
prop C16
requires glsok(0) && not(rheld) && not(wheld) && freevar("func()") != nil && freevar("map[interface{}]interface{}") != nil
modifies everything, ghost lastlock, ghost rheld, ghost wheld, ghost fcalls, ghost fstorage, ghost fpanic
maypanic true
ensures ran: fcalls == old(fcalls) + 1 && not(fpanic)
ensures storage: fstorage == freevar("map[interface{}]interface{}")
ensures deleted: not(stored(gid)) && not(rheld) && not(wheld)
xensures pdeleted: fcalls == old(fcalls) + 1 && fpanic && fstorage == freevar("map[interface{}]interface{}") && not(stored(gid)) && not(rheld) && not(wheld)
end
contract plz/gls.WithEmptyGls$1()
prop C16
requires glsok(0) && not(rheld) && not(wheld) && freevar("func()") != nil
modifies everything, ghost lastlock, ghost rheld, ghost wheld, ghost fcalls, ghost fstorage, ghost fpanic
maypanic true
ensures ran: fcalls == old(fcalls) + 1 && not(fpanic)
ensures storage: fresh(fstorage)
ensures deleted: not(stored(gid)) && not(rheld) && not(wheld)
xensures pdeleted: fcalls == old(fcalls) + 1 && fpanic && fresh(fstorage) && not(stored(gid)) && not(rheld) && not(wheld)
end
contract plz/gls.WithEmptyGls(f) r
prop C16
ensures same: captured(r, "type:func()") == f
end
contract plz/gls.init#1()
prop C16
modifies everything
ensures shards: len(global("plz/gls.globalMaps")) == 16 && len(global("plz/gls.globalLocks")) == 16
ensures made: glsok(0)
ensures distinct: forall(k, 0, 16, forall(j, 0, k, global("plz/gls.globalMaps")[j] != global("plz/gls.globalMaps")[k]))
inv (i int): 0 <= i && i <= 16 && len(global("plz/gls.globalMaps")) == 16 && forall(k, 0, i, forall(j, 0, k, global("plz/gls.globalMaps")[j] != global("plz/gls.globalMaps")[k]))
inv (i int): 0 <= i && i <= 16 && len(global("plz/gls.globalMaps")) == 16 && len(global("plz/gls.globalLocks")) == 16 && forall(k, 0, i, global("plz/gls.globalMaps")[k] != nil && global("plz/gls.globalLocks")[k] != nil)
end
