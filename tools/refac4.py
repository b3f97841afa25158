W='countlog/stats/window.go'; K='countlog/stats/counter.go'; T='countlog/stats/stats.go'; Z='countlog/stats/state.go'
R+=[
('q1','C19',[(K,'''	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
	*(counter.(*CounterMonoid)) += CounterMonoid(1)
''','''	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid).(*CounterMonoid)
	*counter++
''')]),
('q2','C19',[(K,'''	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
	*(counter.(*CounterMonoid)) += CounterMonoid(1)
''','''	one := CounterMonoid(1)
	state.extractor.Extract(event, dimensions, NewCounterMonoid).Add(&one)
''')]),
('q3','C19',[(W,'''	shardId := gls.GoID() % 16
	shard := window.shards[shardId]
	return''','''	shard := &window.shards[gls.GoID()%int64(len(window.shards))]
	return''')]),
('q4','C19',[(W,'''	for i := 0; i < 16; i++ {
		window.exportShard(now, window.shards[i])
	}''','''	for _, shard := range window.shards {
		window.exportShard(now, shard)
	}''')]),
('q5','C19',[(W,'''		window.collector.Collect(&Point{
			Event:     window.event,
			Timestamp: now,
			Dimension: dimension,
			Value:     monoid.Export(),
		})''','''		value := monoid.Export()
		point := &Point{Event: window.event, Timestamp: now}
		point.Dimension, point.Value = dimension, value
		window.collector.Collect(point)''')]),
('q6','C19',[(W,'''	// batch allocate memory to hold dimensions
	space := make([]string, len(shard.MapMonoid)*window.dimensionElemCount)
	for dimensionObj''','''	for dimensionObj'''),(W,'''		dimension := space[:window.dimensionElemCount]
		space = space[window.dimensionElemCount:]
''','''		dimension := make([]string, window.dimensionElemCount)
''')]),
('q7','C19',[(Z,'''	value := float64(*monoid)
	*monoid = 0
	return value''','''	count := *monoid
	*monoid -= count
	return float64(count)''')]),
('q8','C19',[(W,'''	for i := 0; i < 16; i++ {
		window.shards[i] = windowShard{
			MapMonoid: MapMonoid{},
			lock:      &sync.Mutex{},
		}
	}''','''	for i := range window.shards {
		shard := &window.shards[i]
		shard.MapMonoid = make(MapMonoid)
		shard.lock = new(sync.Mutex)
	}''')]),
('q9','C19',[(T,'''	switch agg {
	case "counter":
		return &countEvent{
			Window:    window,
			extractor: extractor,
			site:      site,
		}
	default:
		// TODO: log unknown agg
	}
	return nil''','''	if agg != "counter" {
		// TODO: log unknown agg
		return nil
	}
	return &countEvent{window, site, extractor}''')]),
('q10','C19',[(W,'''func (window *Window) exportShard(now time.Time, shard windowShard) {
	shard.lock.Lock()
	defer shard.lock.Unlock()
''','''func (window *Window) exportShard(now time.Time, shard windowShard) {
	shard.lock.Lock()
	window.collectAll(now, shard.MapMonoid)
	shard.lock.Unlock()
}

func (window *Window) collectAll(now time.Time, monoids MapMonoid) {
'''),(W,'''	space := make([]string, len(shard.MapMonoid)*window''','''	space := make([]string, len(monoids)*window'''),(W,'''range shard.MapMonoid {''','''range monoids {''')]),
]
