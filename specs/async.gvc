// C24: the asynchronous writer. Sends are recorded in sent, byte slices received are counted.
ghost sent seq
ghost received int
ghost receivedtext seq
ghost sentto int
ghost receivedfrom int
// the queue was seen empty since the last receive, a timer expired
ghost emptied bool
ghost timedout bool
ghost drops int
ghost droptext seq
ghost closes int
ghost closed int
contract funcvalue:func(message []uint8) ~ (self, message)
trusted the callback for dropped messages, does not panic
modifies everything, ghost drops, ghost droptext
ensures drops == old(drops) + 1 && droptext == old(message)
end
contract (*plz/countlog/output/async.blockingQueueWriter).Write(writer, buf) n, err
prop C24
requires writer != nil
modifies ghost sent, ghost sentto
ensures once: len(sent) == old(len(sent)) + 1 && sent[:old(len(sent))] == old(sent)
ensures copy: as("[]uint8", sent[old(len(sent))]) == buf && len(as("[]uint8", sent[old(len(sent))])) == len(buf)
ensures own: implies(len(buf) > 0, fresh(base(as("[]uint8", sent[old(len(sent))]))))
ensures result: n == len(buf) && err == nil
ensures queue: implies(len(sent) > old(len(sent)), sentto == old(writer.queue))
end
contract (*plz/countlog/output/async.nonBlockingQueueWriter).Write(writer, buf) n, err
prop C24
requires writer != nil && writer.onMessageDropped != nil
modifies everything, ghost sent, ghost sentto, ghost drops, ghost droptext
ensures either: len(sent) + drops == old(len(sent) + drops) + 1 && len(sent) >= old(len(sent)) && drops >= old(drops)
ensures copy: implies(drops == old(drops), as("[]uint8", sent[old(len(sent))]) == buf)
ensures own: implies(drops == old(drops) && len(buf) > 0, fresh(base(as("[]uint8", sent[old(len(sent))]))))
ensures dropped: implies(drops > old(drops), droptext == old(buf))
ensures result: n == len(buf) && err == nil
ensures queue: implies(len(sent) > old(len(sent)), sentto == old(writer.queue))
end
contract (*plz/countlog/output/async.blockingQueueWriter).asyncWrite(writer, ctx)
prop C24
requires writer != nil && writer.writer != nil && ctx != nil && global("plz/countlog/loglog.Error") != nil
modifies everything, ghost received, ghost receivedtext, ghost receivedfrom, ghost emptied, ghost timedout, ghost wcount, ghost wfails, ghost cursize, ghost lastwrite, ghost wdest, ghost wowned, ghost wtext, ghost werr, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl
requires not(timedout)
ensures drained: emptied || timedout
ensures all: wcount - old(wcount) == received - old(received)
ensures reported: hreports - old(hreports) == wfails - old(wfails)
ensures last: implies(received > old(received), wtext == receivedtext && receivedfrom == writer.queue && wdest == writer.writer)
inv err: global("plz/countlog/loglog.Error") != nil
inv reports: hreports - old(hreports) == wfails - old(wfails)
inv same: wcount - old(wcount) == received - old(received) && received >= old(received)
inv last: implies(received > old(received), wtext == receivedtext && receivedfrom == writer.queue && wdest == writer.writer)
end
// what was closed, and the errors of closing that were not nil, in order
ghost closedlist seq
ghost closeerrs seq
contract (io.Closer).Close(recv) err
trusted closes
modifies ghost closes, ghost closed, ghost closedlist, ghost closeerrs
ensures closes == old(closes) + 1 && closed == recv
ensures closedlist == cat(old(closedlist), unit(recv)) && closeerrs == ite(err == nil, old(closeerrs), cat(old(closeerrs), unit(err)))
end
contract time.NewTimer(d) r
trusted a running timer
ensures r != nil
end

contract plz/countlog/output/async.NewAsyncWriter(cfg) r
prop C24
requires cfg.QueueLength >= 0
requires not(held)
modifies everything, ghost held, ghost spawned, ghost printed, ghost mutexlist
ensures started: len(spawned) == old(len(spawned)) + 1
ensures blocking: implies(cfg.IsQueueBlocking, typeof(r) == typeid("*plz/countlog/output/async.blockingQueueWriter") && payload("*plz/countlog/output/async.blockingQueueWriter", r) != nil && payload("*plz/countlog/output/async.blockingQueueWriter", r).writer == cfg.Writer && payload("*plz/countlog/output/async.blockingQueueWriter", r).executor != nil)
ensures nonblocking: implies(not(cfg.IsQueueBlocking), typeof(r) == typeid("*plz/countlog/output/async.nonBlockingQueueWriter") && payload("*plz/countlog/output/async.nonBlockingQueueWriter", r) != nil && payload("*plz/countlog/output/async.nonBlockingQueueWriter", r).writer == cfg.Writer && payload("*plz/countlog/output/async.nonBlockingQueueWriter", r).executor != nil && payload("*plz/countlog/output/async.nonBlockingQueueWriter", r).onMessageDropped != nil)
ensures callback: implies(not(cfg.IsQueueBlocking) && cfg.OnMessageDropped != nil, payload("*plz/countlog/output/async.nonBlockingQueueWriter", r).onMessageDropped == cfg.OnMessageDropped)
ensures lengthb: implies(cfg.IsQueueBlocking, chancap(payload("*plz/countlog/output/async.blockingQueueWriter", r).queue) == ite(cfg.QueueLength == 0, 1024, cfg.QueueLength))
ensures lengthn: implies(not(cfg.IsQueueBlocking), chancap(payload("*plz/countlog/output/async.nonBlockingQueueWriter", r).queue) == ite(cfg.QueueLength == 0, 1024, cfg.QueueLength))
end
contract (*plz/countlog/output/async.blockingQueueWriter).Close(writer) err
prop C24
requires writer != nil && execok(writer.executor) && not(held) && global("plz/concurrent.LogInfo") != nil
modifies everything, ghost held, ghost cancels, ghost closes, ghost closed, ghost closedlist, ghost closeerrs, ghost mutexlist
ensures stopped: cancels == old(cancels) + 1
ensures waited: implies(haskey(writer.executor.activeGoroutines, anykey(0)), writer.executor.activeGoroutines[anykey(0)] <= 0)
ensures closed: closes == old(closes) + ite(writer.writer != nil && implements("io.Closer", writer.writer), 1, 0)
ensures same: implies(closes > old(closes), closed == writer.writer)
end
