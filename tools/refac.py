"""refac.py [NAMES]: behaviour-preserving edits; each must leave the checks of its property quiet (exit 0)"""
import sys,os,subprocess,shutil,tempfile,time
R=[
('w1','C23',[('countlog/output/writer.go','''	space := bufPool.Get().([]byte)[:0]
	formatted := handler.formatter.Format(space, event)
	_, err := handler.writer.Write(formatted)
	if err != nil {
		loglog.Error(err)
	}
}''','''	handler.deliver(handler.render(event))
}

func (handler *writeEvent) render(event *spi.Event) []byte {
	space := bufPool.Get().([]byte)
	return handler.formatter.Format(space[:0], event)
}

func (handler *writeEvent) deliver(formatted []byte) {
	if _, err := handler.writer.Write(formatted); err != nil {
		loglog.Error(err)
	}
}''')]),
('w2','C23',[('countlog/output/writer.go','''	n, err := writer.writer.Write(buf)
	bufPool.Put(buf)
	return n, err''','''	defer bufPool.Put(buf)
	return writer.writer.Write(buf)''')]),
('w3','C23',[('countlog/output/writer.go','''	writer := cfg.Writer
	if writer == nil {
		writer = os.Stdout
	}
	writer = &recylceWriter{writer}
	return &EventWriter{
		format: cfg.Format,
		writer: writer,
	}''','''	sink := &EventWriter{format: cfg.Format}
	if cfg.Writer != nil {
		sink.writer = &recylceWriter{cfg.Writer}
	} else {
		sink.writer = &recylceWriter{os.Stdout}
	}
	return sink''')]),
('f1','C25',[('countlog/output/format.go','''	for _, formatter := range formatters {
		space = formatter.Format(space, event)
	}
	return space''','''	for i := 0; i < len(formatters); i++ {
		space = formatters[i].Format(space, event)
	}
	return space''')]),
('f2','C25',[('countlog/output/format.go','''	for _, formatter := range formatters {
		space = formatter.Format(space, event)
	}
	return space''','''	rest := formatters
	for len(rest) != 0 {
		space = rest[0].Format(space, event)
		rest = rest[1:]
	}
	return space''')]),
('f3','C25',[('countlog/output/hrf/location.go','''	if event.Level >= spi.LevelWarn {
		return append(space, formatter...)
	}
	return space''','''	if event.Level < spi.LevelWarn {
		return space
	}
	text := string(formatter)
	return append(space, text...)''')]),
('j1','C26',[('countlog/output/json/json.go','''		val := event.Properties[prop.idx]
		if val == nil {
			space = append(space, "null"...)
		} else if reflect.TypeOf(val) == prop.valType {
			space = prop.encoder.Encode(nil, space, reflect2.PtrOf(val))
		} else {
			// the same log site might be used with another type of value
			space = jsonfmt.EncoderOfObject(val).Encode(nil, space, reflect2.PtrOf(val))
		}
	}''','''		space = prop.appendValue(space, event.Properties[prop.idx])
	}'''),('countlog/output/json/json.go','''func (formatter *jsonFormatter) Format''','''func (prop *jsonFormatterProp) appendValue(space []byte, val interface{}) []byte {
	if val == nil {
		return append(space, "null"...)
	}
	encoder := prop.encoder
	if reflect.TypeOf(val) != prop.valType {
		encoder = jsonfmt.EncoderOfObject(val)
	}
	return encoder.Encode(nil, space, reflect2.PtrOf(val))
}

func (formatter *jsonFormatter) Format''')]),
('j2','C26',[('countlog/output/json/json.go','''	for _, prop := range formatter.props {
		space = append(space, ',')
		space = append(space, prop.prefix...)''','''	for i := range formatter.props {
		prop := &formatter.props[i]
		space = append(append(space, ','), prop.prefix...)''')]),
('j3','C26',[('countlog/output/json/json.go','''	for i := 0; i < len(site.Sample); i += 2 {
		prefix := string(jsonfmt.WriteString(nil, site.Sample[i].(string))) + ":"
		prop := jsonFormatterProp{
			prefix:  prefix,
			idx:     i + 1,
		}
		if site.Sample[i+1] != nil {
			prop.valType = reflect.TypeOf(site.Sample[i+1])
			prop.encoder = jsonfmt.EncoderOf(reflect2.TypeOf(site.Sample[i+1]))
		}
		formatter.props = append(formatter.props, prop)
	}''','''	for i := 0; i < len(site.Sample); i += 2 {
		key, val := site.Sample[i].(string), site.Sample[i+1]
		prop := jsonFormatterProp{idx: i + 1}
		prop.prefix = string(append(jsonfmt.WriteString(nil, key), ':'))
		if val != nil {
			prop.valType = reflect.TypeOf(val)
			prop.encoder = jsonfmt.EncoderOf(reflect2.TypeOf(val))
		}
		formatter.props = append(formatter.props, prop)
	}''')]),
('a1','C24',[('countlog/output/async/async.go','''		case buf := <-writer.queue:
			_, err := writer.writer.Write(buf)
			if err != nil {
				loglog.Error(err)
			}
		}
	}
}''','''		case buf := <-writer.queue:
			writer.writeOut(buf)
		}
	}
}

func (writer *blockingQueueWriter) writeOut(buf []byte) {
	if _, err := writer.writer.Write(buf); err != nil {
		loglog.Error(err)
	}
}''')]),
('a2','C24',[('countlog/output/async/async.go','''func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
	writer.queue <- append([]byte(nil), buf...)
	return len(buf), nil''','''func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
	owned := make([]byte, len(buf))
	n := copy(owned, buf)
	writer.queue <- owned
	return n, nil''')]),
('a3','C24',[('countlog/output/async/async.go','''			// give 1 second to write remaining logs
			timer := time.NewTimer(time.Second)
			for {
				select {
				case <-timer.C:
					// time is up
					return
				case buf := <-writer.queue:
					_, err := writer.writer.Write(buf)
					if err != nil {
						loglog.Error(err)
					}
				default:
					// all written out
					return
				}
			}
			return
''','''			writer.drain()
			return
'''),('countlog/output/async/async.go','''func (writer *blockingQueueWriter) Write(''','''// drain gives 1 second to write remaining logs
func (writer *blockingQueueWriter) drain() {
	timer := time.NewTimer(time.Second)
	for {
		select {
		case <-timer.C:
			return
		case buf := <-writer.queue:
			if _, err := writer.writer.Write(buf); err != nil {
				loglog.Error(err)
			}
		default:
			return
		}
	}
}

func (writer *blockingQueueWriter) Write(''')]),
('a4','C24',[('countlog/output/async/async.go','''	closer, _ := writer.writer.(io.Closer)
	if closer == nil {
		return nil
	}
	return closer.Close()''','''	if closer, isCloser := writer.writer.(io.Closer); isCloser {
		return closer.Close()
	}
	return nil''')]),
('a5','C24',[('countlog/output/async/async.go','''	executor := concurrent.NewUnboundedExecutor()
	if cfg.IsQueueBlocking {
		asyncWriter := &blockingQueueWriter{
			queue:    make(chan []byte, queueLength),
			writer:   cfg.Writer,
			executor: executor,
		}
		executor.Go(asyncWriter.asyncWrite)
		return asyncWriter
	}
	asyncWriter := &nonBlockingQueueWriter{
		blockingQueueWriter: blockingQueueWriter{
			queue:    make(chan []byte, queueLength),
			writer:   cfg.Writer,
			executor: executor,
		},
		onMessageDropped: onMessageDropped,
	}
	executor.Go(asyncWriter.asyncWrite)
	return asyncWriter''','''	base := blockingQueueWriter{
		queue:    make(chan []byte, queueLength),
		writer:   cfg.Writer,
		executor: concurrent.NewUnboundedExecutor(),
	}
	if cfg.IsQueueBlocking {
		base.executor.Go(base.asyncWrite)
		return &base
	}
	asyncWriter := &nonBlockingQueueWriter{
		blockingQueueWriter: base,
		onMessageDropped: onMessageDropped,
	}
	base.executor.Go(asyncWriter.asyncWrite)
	return asyncWriter''')]),
('e1','C27',[('concurrent/unbounded_executor.go','''		defer func() {
			recovered := recover()
			if recovered != nil && recovered != StopSignal {
				LogPanic(recovered)
			}
			executor.activeGoroutinesMutex.Lock()
			defer executor.activeGoroutinesMutex.Unlock()
			executor.activeGoroutines[startFrom] -= 1
		}()
		handler(executor.ctx)
	}()
}''','''		defer executor.finish(startFrom)
		handler(executor.ctx)
	}()
}

func (executor *UnboundedExecutor) finish(startFrom string) {
	recovered := recover()
	if recovered != nil && recovered != StopSignal {
		LogPanic(recovered)
	}
	executor.activeGoroutinesMutex.Lock()
	defer executor.activeGoroutinesMutex.Unlock()
	executor.activeGoroutines[startFrom]--
}''')]),
('e2','C27',[('concurrent/unbounded_executor.go','''	_, file, line, _ := runtime.Caller(1)
	executor.activeGoroutinesMutex.Lock()
	defer executor.activeGoroutinesMutex.Unlock()
	startFrom := fmt.Sprintf("%s:%d", file, line)
	executor.activeGoroutines[startFrom] += 1
''','''	_, file, line, _ := runtime.Caller(1)
	startFrom := fmt.Sprintf("%s:%d", file, line)
	executor.activeGoroutinesMutex.Lock()
	executor.activeGoroutines[startFrom]++
	executor.activeGoroutinesMutex.Unlock()
''')]),
('e3','C27',[('concurrent/unbounded_executor.go','''	executor.activeGoroutinesMutex.Lock()
	defer executor.activeGoroutinesMutex.Unlock()
	for startFrom, count := range executor.activeGoroutines {
		if count > 0 {
			LogInfo("event!unbounded_executor.still waiting goroutines to quit",
				"startFrom", startFrom,
				"count", count)
			return false
		}
	}
	return true''','''	executor.activeGoroutinesMutex.Lock()
	defer executor.activeGoroutinesMutex.Unlock()
	finished := true
	for startFrom, count := range executor.activeGoroutines {
		if count <= 0 {
			continue
		}
		LogInfo("event!unbounded_executor.still waiting goroutines to quit",
			"startFrom", startFrom,
			"count", count)
		finished = false
		break
	}
	return finished''')]),
('e4','C27',[('concurrent/unbounded_executor.go','''	executor.cancel()
	for {
		fiveSeconds := time.NewTimer(time.Millisecond * 100)
		select {
		case <-fiveSeconds.C:
		case <-ctx.Done():
			return
		}
		if executor.checkGoroutines() {
			return
		}
	}''','''	executor.Stop()
	for finished := false; !finished; finished = executor.checkGoroutines() {
		select {
		case <-ctx.Done():
			return
		case <-time.After(time.Millisecond * 100):
		}
	}''')]),
('e5','C27',[('concurrent/unbounded_executor.go','''			if recovered != nil && recovered != StopSignal {
				LogPanic(recovered)
			}
			executor.activeGoroutinesMutex.Lock()
			defer executor.activeGoroutinesMutex.Unlock()
			executor.activeGoroutines[startFrom] -= 1
''','''			switch recovered {
			case nil, StopSignal:
			default:
				LogPanic(recovered)
			}
			executor.activeGoroutinesMutex.Lock()
			executor.activeGoroutines[startFrom] -= 1
			executor.activeGoroutinesMutex.Unlock()
''')]),
]
for n in '23456':
    try: exec(open('/verif/tools/refac%s.py'%n).read())
    except FileNotFoundError: pass
only=set(sys.argv[1:])
for name,prop,edits in R:
    if only and name not in only and prop not in only: continue
    w=tempfile.mkdtemp(prefix='/tmp/refac')
    subprocess.check_call(['cp','-a','/repo',w+'/r'])
    for f,old,new in edits:
        p=w+'/r/'+f; t=open(p).read()
        assert t.count(old)==1,(name,f,t.count(old))
        open(p,'w').write(t.replace(old,new))
    b=subprocess.run(['bash','-c',f'. /opt/vp/env.sh; cd {w}/r && go build '+' '.join('./'+os.path.dirname(f) for f,_,_ in edits)],capture_output=True,text=True)
    if b.returncode: print(name,'DOES NOT BUILD',b.stderr[:300]); shutil.rmtree(w); continue
    t0=time.time()
    r=subprocess.run(['/verif/check.sh',prop,'quick'],env=dict(os.environ,VERIF_REPO=w+'/r',VERIF_SEED='1'),capture_output=True,text=True)
    out=(r.stdout+r.stderr)
    print(name,prop,'exit',r.returncode,'%ds'%(time.time()-t0),' | '.join(l[:160] for l in out.split('\n') if 'VIOL' in l or 'ounded' in l or 'FAIL' in l or 'nsupp' in l)[:500],flush=True)
    shutil.rmtree(w)
