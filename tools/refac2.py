A='parse/read/any.go'; I='parse/read/int.go'; S='msgfmt/jsonfmt/'
R+=[
('p1','C10',[(A,'''		for i := 0; i < len(buf); i++ {
			b := buf[i]
			if b == b1 {
				src.ConsumeN(i)
				return space
			}
			space = append(space, b)
		}''','''		for i, b := range buf {
			if b == b1 {
				src.ConsumeN(i)
				return space
			}
			space = append(space, b)
		}''')]),
('p2','C10',[(A,'''		for i := 0; i < len(buf); i++ {
			b := buf[i]
			if b == b1 {
				src.ConsumeN(i)
				return space
			}
			space = append(space, b)
		}
		src.Consume()''','''		i := 0
		for i < len(buf) && buf[i] != b1 {
			i++
		}
		space = append(space, buf[:i]...)
		if i < len(buf) {
			src.ConsumeN(i)
			return space
		}
		src.Consume()''')]),
('p3','C10',[('parse/skip/space.go','''			switch b {
			case '\\t', '\\n', '\\v', '\\f', '\\r', ' ':
				count++
				continue
			default:
				src.ConsumeN(i)
				return count
			}
		}''','''			if !isSpace(b) {
				src.ConsumeN(i)
				return count
			}
			count++
		}'''),('parse/skip/space.go','func Space(','''func isSpace(b byte) bool {
	return b == ' ' || '\\t' <= b && b <= '\\r'
}

func Space(''')]),
('p4','C10',[('parse/skip/space.go','''		buf := src.Peek()
		for i := 0; i < len(buf); i++ {
			b := buf[i]
			switch b {
			case '\\t', '\\n', '\\v', '\\f', '\\r', ' ':
				count++
				continue
			default:
				src.ConsumeN(i)
				return count
			}
		}
		src.Consume()''','''		for i, b := range src.Peek() {
			switch b {
			case '\\t', '\\n', '\\v', '\\f', '\\r', ' ':
			default:
				src.ConsumeN(i)
				return count + i
			}
		}
		count += len(src.Peek())
		src.Consume()''')]),
('i1','C07',[(I,'''			if value > uint64SafeToMultiple10 {
				value2 := (value << 3) + (value << 1) + uint64(ind)
				if value > math.MaxUint64/10 || value2 < value {
					src.ReportError(errors.New("uint64: overflow"))
					return 0
				}
				value = value2
				continue
			}
			value = (value << 3) + (value << 1) + uint64(ind)
''','''			next := value*10 + uint64(ind)
			if value > math.MaxUint64/10 || next < value {
				src.ReportError(errors.New("uint64: overflow"))
				return 0
			}
			value = next
''')]),
('i2','C07',[(I,'''	c := src.Peek()[0]
	if c == '-' {
		src.ConsumeN(1)
		val := Uint64(src)
		if val > math.MaxInt64+1 {
			src.ReportError(errors.New("int64: overflow"))
			return 0
		}
		return -int64(val)
	}
	val := Uint64(src)
	if val > math.MaxInt64 {
		src.ReportError(errors.New("int64: overflow"))
		return 0
	}
	return int64(val)''','''	negative := src.Peek1() == '-'
	limit := uint64(math.MaxInt64)
	if negative {
		src.ConsumeN(1)
		limit++
	}
	val := Uint64(src)
	if val > limit {
		src.ReportError(errors.New("int64: overflow"))
		return 0
	}
	if negative {
		return -int64(val)
	}
	return int64(val)''')]),
('i3','C07',[(I,'''			ind := intDigits[c]
			if ind == invalidCharForNumber {
				src.ConsumeN(i)
				return value
			}
''','''			if c < '0' || c > '9' {
				src.ConsumeN(i)
				return value
			}
			ind := c - '0'
''')]),
('c1','C08',[('parse/parse.go','''	for n != 0 && n >= len(src.current) {
		n -= len(src.current)
		src.Consume()
		if len(src.current) == 0 && src.err != nil {
			return
		}
	}
	src.current = src.current[n:]''','''	for {
		if n < len(src.current) {
			break
		}
		if n == 0 {
			break
		}
		n -= len(src.current)
		src.Consume()
		if len(src.current) == 0 && src.err != nil {
			return
		}
	}
	src.current = src.current[n:]''')]),
('c2','C08',[('parse/parse.go','''	for {
		n, err := src.reader.Read(src.buf)
		src.current = src.buf[:n]
		if n != 0 {
			return
		}
		if err != nil {
			src.ReportError(err)
			return
		}
	}
}

func (src *Source) PeekRune''','''	var n int
	var err error
	for n == 0 && err == nil {
		n, err = src.reader.Read(src.buf)
	}
	src.current = src.buf[:n]
	if n == 0 {
		src.ReportError(err)
	}
}

func (src *Source) PeekRune''')]),
('s1','C02',[(S+'encoder_str.go','''	var i int
	var c byte
	for i, c = range []byte(str) {
		if c > 31 && c != '"' && c != '\\\\' {
			space = append(space, c)
		} else {
			return writeStringSlowPath(space, []byte(str[i:]))
		}
	}
	return append(space, '"')''','''	for i := 0; i < len(str); i++ {
		c := str[i]
		if c <= 31 || c == '"' || c == '\\\\' {
			return writeStringSlowPath(space, []byte(str)[i:])
		}
		space = append(space, c)
	}
	return append(space, '"')''')]),
('s2','C02',[(S+'encoder_str.go','''		switch b {
		case '\\\\', '"':
			space = append(space, '\\\\', b)
		case '\\n':
			space = append(space, '\\\\', 'n')
		case '\\r':
			space = append(space, '\\\\', 'r')
		case '\\t':
			space = append(space, '\\\\', 't')
		default:
			// This encodes bytes < 0x20 except for \\t, \\n and \\r.
			space = append(space, '\\\\', 'u', '0', '0', hex[b>>4], hex[b&0xF])
		}
		start''','''		space = appendEscaped(space, b)
		start'''),(S+'encoder_str.go','func writeStringSlowPath','''func appendEscaped(space []byte, b byte) []byte {
	switch b {
	case '\\\\', '"':
		return append(space, '\\\\', b)
	case '\\n':
		return append(space, `\\n`...)
	case '\\r':
		return append(space, `\\r`...)
	case '\\t':
		return append(space, `\\t`...)
	}
	space = append(space, `\\u00`...)
	return append(space, hex[b>>4], hex[b&0xF])
}

func writeStringSlowPath''')]),
('s3','C02',[(S+'encoder_str.go','''		if b >= utf8.RuneSelf {
			continue
		}
		if safeSet[b] {
			continue
		}
		if start < i {
			space = append(space, s[start:i]...)
		}
''','''		if b >= utf8.RuneSelf || safeSet[b] {
			continue
		}
		space = append(space, s[start:i]...)
''')]),
('b1','C03',[(S+'encoder_bytes.go','''		if b >= utf8.RuneSelf {
			if start < i {
				space = append(space, s[start:i]...)
			}
			space = append(space, '\\\\', '\\\\', 'x', hex[b>>4], hex[b&0xF])
			start = i + 1
			continue
		}
		if safeSet[b] {
			continue
		}
''','''		if b < utf8.RuneSelf && safeSet[b] {
			continue
		}
''')]),
('n1','C01',[(S+'encoder_int.go','''func WriteInt16(space []byte, nval int16) []byte {
	var val uint16
	if nval < 0 {
		val = uint16(-nval)
		space = append(space, '-')
	} else {
		val = uint16(nval)
	}
	return WriteUint16(space, val)''','''func WriteInt16(space []byte, nval int16) []byte {
	if nval < 0 {
		return WriteUint16(append(space, '-'), -uint16(nval))
	}
	return WriteUint16(space, uint16(nval))''')]),
('n2','C01',[(S+'encoder_int.go','''	q1 := val / 1000
	if q1 == 0 {
		return writeFirstBuf(space, digits[val])
	}
	r1 := val - q1*1000
	space = writeFirstBuf(space, digits[q1])
	return writeBuf(space, digits[r1])
}

func WriteInt32''','''	if val < 1000 {
		return writeFirstBuf(space, digits[val])
	}
	space = writeFirstBuf(space, digits[val/1000])
	return writeBuf(space, digits[val%1000])
}

func WriteInt32''')]),
('d1','C05',[(S+'encoder_slice.go','''	for i := 0; i < length; i++ {
		if i != 0 {
			space = append(space, ',')
		}
		elemPtr := sliceType.UnsafeGetIndex(ptr, i)
		space = encoder.elemEncoder.Encode(ctx, space, elemPtr)
	}
	space = append(space, ']')
	return space''','''	if length == 0 {
		return append(space, ']')
	}
	space = encoder.elemEncoder.Encode(ctx, space, sliceType.UnsafeGetIndex(ptr, 0))
	for i := 1; i < length; i++ {
		space = append(space, ',')
		space = encoder.elemEncoder.Encode(ctx, space, sliceType.UnsafeGetIndex(ptr, i))
	}
	return append(space, ']')''')]),
('d2','C05',[(S+'encoder_map.go','''	for i := 0; iter.HasNext(); i++ {
		if i != 0 {
			space = append(space, ',')
		}
''','''	first := true
	for iter.HasNext() {
		if !first {
			space = append(space, ',')
		}
		first = false
''')]),
('d3','C05',[(S+'encoder_stuct.go','''	for _, field := range encoder.fields {
		space = append(space, field.prefix...)
		fieldPtr := field.structField.UnsafeGet(ptr)
		space = field.encoder.Encode(ctx, space, fieldPtr)
	}
	space = append(space, '}')
	return space''','''	for i := range encoder.fields {
		field := &encoder.fields[i]
		space = append(space, field.prefix...)
		space = field.encoder.Encode(ctx, space, field.structField.UnsafeGet(ptr))
	}
	return append(space, '}')''')]),
('d4','C05',[(S+'encoder_array.go','''	for i := 0; i < arrayType.Len(); i++ {''','''	n := arrayType.Len()
	for i := 0; i < n; i++ {''')]),
('l1','C17',[('countlog/countlog.go','''	if err != nil {
		ptr := unsafe.Pointer(&properties)
		return log(LevelWarn, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
	}
	if LevelInfo < spi.MinLevel {
		return nil
	}
	ptr := unsafe.Pointer(&properties)
	log(LevelInfo, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))
	return nil''','''	level := LevelInfo
	if err != nil {
		level = LevelWarn
	} else if !ShouldLog(level) {
		return nil
	}
	ptr := unsafe.Pointer(&properties)
	return log(level, event, "call", nil, err, castEmptyInterfaces(uintptr(ptr)))''')]),
('l2','C17',[('countlog/countlog.go','''func Warn(event string, properties ...interface{}) {
	ptr := unsafe.Pointer(&properties)
	log(LevelWarn, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))''','''func Warn(event string, properties ...interface{}) {
	logPlain(LevelWarn, event, properties)'''),('countlog/countlog.go','func Error(event','''func logPlain(level int, event string, properties []interface{}) {
	ptr := unsafe.Pointer(&properties)
	log(level, event, "", nil, nil, castEmptyInterfaces(uintptr(ptr)))
}

func Error(event''')]),
('l3','C17',[('countlog/countlog.go','''	handler.Handle(castedEvent)
	if castedEvent.Error != nil {
		formatter := msgfmt.FormatterOf(eventName, properties)
		errMsg := formatter.Format(nil, properties)
		errMsg = append(errMsg, ": "...)
		errMsg = append(errMsg, castedEvent.Error.Error()...)
		castedEvent.Error = errors.New(string(errMsg))
	}
	return castedEvent.Error''','''	handler.Handle(castedEvent)
	if castedEvent.Error == nil {
		return nil
	}
	formatter := msgfmt.FormatterOf(eventName, properties)
	errMsg := formatter.Format(nil, properties)
	castedEvent.Error = errors.New(string(errMsg) + ": " + castedEvent.Error.Error())
	return castedEvent.Error''')]),
('r1','C18',[('countlog/root.go','''func (handler *oneHandler) Handle(event *spi.Event) {
	defer func() {
		recovered := recover()
		if recovered != nil {
			handler.onPanic(recovered, event, handler.site)
		}
	}()
	handler.handler.Handle(event)''','''func (handler *oneHandler) Handle(event *spi.Event) {
	defer handler.recoverPanic(event)
	handler.handler.Handle(event)'''),('countlog/root.go','func (handler *oneHandler) LogSite','''func (handler *oneHandler) recoverPanic(event *spi.Event) {
	if recovered := recover(); recovered != nil {
		handler.onPanic(recovered, event, handler.site)
	}
}

func (handler *oneHandler) LogSite''')]),
('r2','C18',[('countlog/root.go','''	handlerObj, found := handlerCache.Load(key)
	if found {
		handlerObj.(spi.EventHandler).Handle(event)
		return
	}
	site := redirector.site
	site.File = callerFile
	site.Line = callerLine
	site.Sample = event.Properties
	handler := newRootHandler(&site, fallbackModeOnPanic)
	handlerCache.Store(key, handler)
	handler.Handle(event)
	return''','''	redirector.handlerFor(key, event).Handle(event)'''),('countlog/root.go','func (redirector *redirector) LogSite','''func (redirector *redirector) handlerFor(key accurateHandlerKey, event *spi.Event) spi.EventHandler {
	if handlerObj, found := handlerCache.Load(key); found {
		return handlerObj.(spi.EventHandler)
	}
	site := redirector.site
	site.File, site.Line = key.File, key.Line
	site.Sample = event.Properties
	handler := newRootHandler(&site, fallbackModeOnPanic)
	handlerCache.Store(key, handler)
	return handler
}

func (redirector *redirector) LogSite''')]),
('r3','C18',[('countlog/root.go','''	statsHandler := EventAggregator.HandlerOf(site)
	if statsHandler == nil {
		return &oneHandler{
			site:    site,
			handler: EventWriter.HandlerOf(site),
			onPanic: onPanic,
		}
	}
	return &statsAndOutput{
		site:          site,
		statsHandler:  statsHandler,
		outputHandler: EventWriter.HandlerOf(site),
		onPanic:       onPanic,
	}''','''	statsHandler := EventAggregator.HandlerOf(site)
	outputHandler := EventWriter.HandlerOf(site)
	if statsHandler != nil {
		return &statsAndOutput{site, statsHandler, outputHandler, onPanic}
	}
	return &oneHandler{site: site, handler: outputHandler, onPanic: onPanic}''')]),
('r4','C18',[('countlog/root.go','''	newSite := *site
	newSite.File = "unknown"
	newSite.Line = 0
	newSite.Sample = event.Properties
	newRootHandler(&newSite, fallbackModeOnPanic).Handle(event)''','''	fallbackSite := &spi.LogSite{}
	*fallbackSite = *site
	fallbackSite.Sample = event.Properties
	fallbackSite.File, fallbackSite.Line = "unknown", 0
	handler := newRootHandler(fallbackSite, fallbackModeOnPanic)
	handler.Handle(event)''')]),
]
