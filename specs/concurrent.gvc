// C27: the executor. A critical section is what happens between Lock and Unlock; held: whether the mutex is held.
ghost held bool
// the mutexes locked, in order
ghost mutexlist seq
guarded plz/concurrent.UnboundedExecutor.activeGoroutines held
ghost printed seq
ghost handled int
ghost logged int
ghost spawned seq
ghost cancels int
// whether the function of the goroutine panicked, and with what
ghost hpanicked bool
ghost hpval int
fn anykey(x int) seq
// no counter comes near the limits of int
fn sane(e any) bool = implies(haskey(e.activeGoroutines, anykey(0)), -1000000000000 < e.activeGoroutines[anykey(0)] && e.activeGoroutines[anykey(0)] < 1000000000000)
contract (*sync.Mutex).Lock(m)
trusted waits until the mutex is free
requires free: not(held)
modifies ghost held, ghost mutexlist
ensures held && mutexlist == cat(old(mutexlist), unit(m))
end
contract (*sync.Mutex).Unlock(m)
trusted
requires held: held
modifies ghost held
ensures not(held)
end
contract fmt.Sprintf(format, a) r
trusted formats
modifies ghost printed
ensures printed == r
end
fn execok(e any) bool = e != nil && e.activeGoroutinesMutex != nil && e.activeGoroutines != nil && e.ctx != nil && e.cancel != nil
contract plz/concurrent.NewUnboundedExecutor() r
prop C27
ensures r != nil && r.activeGoroutinesMutex != nil && r.activeGoroutines != nil && r.ctx != nil && r.cancel != nil
ensures none: not(haskey(r.activeGoroutines, anykey(0)))
end
contract context.WithCancel(parent) ctx, cancel
trusted
ensures ctx != nil && cancel != nil
end
contract (*plz/concurrent.UnboundedExecutor).checkGoroutines(executor) r
prop C27
requires execok(executor) && not(held) && global("plz/concurrent.LogInfo") != nil
modifies ghost held, ghost mutexlist
ensures all: implies(r && haskey(executor.activeGoroutines, anykey(0)), executor.activeGoroutines[anykey(0)] <= 0)
ensures released: not(held)
inv (v set): implies(member(v, anykey(0)), executor.activeGoroutines[anykey(0)] <= 0)
end

contract (*plz/concurrent.UnboundedExecutor).Go(executor, handler)
prop C27
requires execok(executor) && not(held) && sane(executor)
modifies map(executor.activeGoroutines), ghost held, ghost spawned, ghost printed, ghost mutexlist
ensures released: not(held)
ensures started: len(spawned) == old(len(spawned)) + 1
ensures counted: implies(printed == anykey(0), haskey(executor.activeGoroutines, anykey(0)) && executor.activeGoroutines[anykey(0)] == old(ite(haskey(executor.activeGoroutines, anykey(0)), executor.activeGoroutines[anykey(0)], 0)) + 1)
ensures others: implies(printed != anykey(0), iff(haskey(executor.activeGoroutines, anykey(0)), old(haskey(executor.activeGoroutines, anykey(0)))) && executor.activeGoroutines[anykey(0)] == old(executor.activeGoroutines[anykey(0)]))
end
contract funcvalue:func(ctx context.Context) ~ (self, ctx)
trusted a goroutine's function, may panic; its own calls of the executor are not interleaved
modifies ghost handled, ghost hpanicked, ghost hpval
maypanic true
ensures handled == old(handled) + 1 && not(hpanicked)
xensures handled == old(handled) + 1 && hpanicked && hpval == panicvalue
end
contract funcvalue:func(recovered interface{}, properties ...interface{}) interface{} ~ (self, recovered, properties) r
trusted reports a panic
modifies ghost logged
ensures logged == old(logged) + 1
end
contract (*plz/concurrent.UnboundedExecutor).Go$1()
prop C27
requires execok(executor) && not(held) && sane(executor) && handler != nil && global("plz/concurrent.LogPanic") != nil
modifies everything, ghost held, ghost handled, ghost hpanicked, ghost hpval, ghost logged, ghost mutexlist
ensures released: not(held)
ensures ran: handled == old(handled) + 1
ensures logged: logged == old(logged) + ite(hpanicked && hpval != box("string", "STOP!"), 1, 0)
ensures counted: implies(startFrom == anykey(0), executor.activeGoroutines[anykey(0)] == old(ite(haskey(executor.activeGoroutines, anykey(0)), executor.activeGoroutines[anykey(0)], 0)) - 1)
ensures others: implies(startFrom != anykey(0), executor.activeGoroutines[anykey(0)] == old(executor.activeGoroutines[anykey(0)]))
end
contract funcvalue:context.CancelFunc ~ (self)
trusted cancels the context
modifies ghost cancels
ensures cancels == old(cancels) + 1
end
fn donech(c int) int
contract (context.Context).Done(recv) r
trusted
ensures r == donech(recv)
end
contract context.Background() r
trusted is never done
ensures r != nil && donech(r) == nil
end
contract (*plz/concurrent.UnboundedExecutor).Stop(executor)
prop C27
requires execok(executor)
modifies ghost cancels
ensures cancelled: cancels == old(cancels) + 1
end
contract (*plz/concurrent.UnboundedExecutor).StopAndWait(executor, ctx)
prop C27
requires execok(executor) && not(held) && ctx != nil && global("plz/concurrent.LogInfo") != nil
modifies ghost held, ghost cancels, ghost mutexlist
ensures cancelled: cancels == old(cancels) + 1
ensures ended: implies(donech(ctx) == nil && haskey(executor.activeGoroutines, anykey(0)), executor.activeGoroutines[anykey(0)] <= 0)
ensures released: not(held)
inv cancelled: cancels == old(cancels) + 1 && not(held)
inv (v bool): implies(v && haskey(executor.activeGoroutines, anykey(0)), executor.activeGoroutines[anykey(0)] <= 0)
end
contract (*plz/concurrent.UnboundedExecutor).StopAndWaitForever(executor)
prop C27
requires execok(executor) && not(held) && global("plz/concurrent.LogInfo") != nil
modifies ghost held, ghost cancels, ghost mutexlist
ensures cancelled: cancels == old(cancels) + 1
ensures ended: implies(haskey(executor.activeGoroutines, anykey(0)), executor.activeGoroutines[anykey(0)] <= 0)
ensures released: not(held)
end
