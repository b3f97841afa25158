G='gls/gls.go'; C='closer.go'; X='concurrent/unbounded_executor.go'
R+=[
('g1','C16',[(G,'''	if found {
		return gls
	} else {
		return nil
	}''','''	if !found {
		return nil
	}
	return gls''')]),
('g2','C16',[(G,'''	lock.RLock()
	gls, found := globalMaps[shardIndex][goid]
	lock.RUnlock()
	if found {
		return gls
	} else {
		return nil
	}''','''	lock.RLock()
	defer lock.RUnlock()
	return globalMaps[shardIndex][goid]''')]),
('g3','C16',[(G,'''	shardIndex := goid % shardsCount
	lock := globalLocks[shardIndex]
	lock.Lock()
	delete(globalMaps[shardIndex], goid)
	lock.Unlock()
''','''	lock, shard := shardOf(goid)
	lock.Lock()
	defer lock.Unlock()
	delete(shard, goid)
'''),(G,'''func WithGls(''','''func shardOf(goid int64) (*sync.RWMutex, globalMapType) {
	shardIndex := goid % shardsCount
	return globalLocks[shardIndex], globalMaps[shardIndex]
}

func WithGls(''')]),
('g4','C16',[(G,'''		asCopiable, ok := v.(copiable)
		if ok {
			childGls[k] = asCopiable.Copy()
		} else {
			childGls[k] = v
		}''','''		if asCopiable, ok := v.(copiable); ok {
			v = asCopiable.Copy()
		}
		childGls[k] = v''')]),
('g5','C16',[(G,'''		asCopiable, ok := v.(copiable)
		if ok {
			childGls[k] = asCopiable.Copy()
		} else {
			childGls[k] = v
		}''','''		childGls[k] = inherit(v)'''),(G,'''func WithGls(''','''func inherit(v interface{}) interface{} {
	switch c := v.(type) {
	case copiable:
		return c.Copy()
	}
	return v
}

func WithGls(''')]),
('g6','C16',[(G,'''	return func() {
		goid := GoID()
		ResetGls(goid, childGls)
		defer DeleteGls(goid)
		f()
	}''','''	return runWith(childGls, f)'''),(G,'''func WithGls(''','''func runWith(storage map[interface{}]interface{}, f func()) func() {
	return func() {
		goid := GoID()
		ResetGls(goid, storage)
		defer DeleteGls(goid)
		f()
	}
}

func WithGls(''')]),
('g7','C16',[(G,'''	return func() {
		goid := GoID()
		ResetGls(goid, childGls)
		defer DeleteGls(goid)
		f()
	}''','''	storage := childGls
	return func() {
		goid := GoID()
		defer DeleteGls(goid)
		ResetGls(goid, storage)
		f()
	}''')]),
('g8','C16',[(G,'''	glsMap := GetGls(GoID())
	if glsMap == nil {
		return nil
	}
	return glsMap[key]''','''	return GetGls(GoID())[key]''')]),
('h1','C22',[(C,'''	var nonNilErrs []error
	for _, err := range errs {
		if err != nil {
			nonNilErrs = append(nonNilErrs, err)
		}
	}''','''	nonNilErrs := make([]error, 0, len(errs))
	for i := 0; i < len(errs); i++ {
		if errs[i] == nil {
			continue
		}
		nonNilErrs = append(nonNilErrs, errs[i])
	}''')]),
('h2','C22',[(C,'''	err := resource.Close()
	if err != nil {
		_, file''','''	err := resource.Close()
	if err == nil {
		return nil
	}
	{
		_, file'''),(C,'''		countlog.Error("event!close "+closedAt, properties...)
		return err
	}
	return nil
''','''		countlog.Error("event!close "+closedAt, properties...)
		return err
	}
''')]),
('h3','C22',[(C,'''	for _, resource := range resources {
		err := resource.Close()
		if err != nil {
			_, file''','''	for i := range resources {
		err := resources[i].Close()
		if err != nil {
			_, file''')]),
('h4','C22',[(C,'''		if err != nil {
			_, file, line, _ := runtime.Caller(1)
			closedAt := fmt.Sprintf("%s:%d", file, line)
			// each''','''		if err != nil {
			errs = append(errs, err)
			_, file, line, _ := runtime.Caller(1)
			closedAt := fmt.Sprintf("%s:%d", file, line)
			// each'''),(C,'''			countlog.Error("event!CloseAll failed, called from "+closedAt, failure...)
			errs = append(errs, err)
''','''			countlog.Error("event!CloseAll failed, called from "+closedAt, failure...)
''')]),
('h5','C22',[(C,'''	if len(errs) == 0 && len(properties) > 0 {
		_, file, line, _ := runtime.Caller(1)
		closedAt := fmt.Sprintf("%s:%d", file, line)
		countlog.Debug("event!CloseAll called from "+closedAt, properties...)
	}
	return MergeErrors(errs...)''','''	if len(errs) > 0 {
		return MergeErrors(errs...)
	}
	if len(properties) > 0 {
		_, file, line, _ := runtime.Caller(1)
		countlog.Debug("event!CloseAll called from "+fmt.Sprintf("%s:%d", file, line), properties...)
	}
	return nil''')]),
('h6','C22',[(C,'''	return MergeErrors(errs...)''','''	if len(errs) == 0 {
		return nil
	}
	return MultiError(errs)''')]),
]
