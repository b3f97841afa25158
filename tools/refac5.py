# behaviour-preserving edits of the rotating logger (C20)
L='countlog/output/lumberjack/lumberjack.go'
R+=[
('s1','C20',[(L,'''	if l.file == nil {
		if err = l.openExistingOrNew(len(p)); err != nil {
			return 0, err
		}
	}

	if l.size+writeLen > l.max() {
		if err := l.rotate(); err != nil {
			return 0, err
		}
	}

	n, err = l.file.Write(p)
''','''	if err = l.makeRoom(p, writeLen); err != nil {
		return 0, err
	}

	n, err = l.file.Write(p)
'''),(L,'''// Close implements io.Closer, and closes the current logfile.
''','''func (l *Logger) makeRoom(p []byte, writeLen int64) error {
	if l.file == nil {
		if err := l.openExistingOrNew(len(p)); err != nil {
			return err
		}
	}
	if l.max() >= l.size+writeLen {
		return nil
	}
	return l.rotate()
}

// Close implements io.Closer, and closes the current logfile.
''')]),
('s2','C20',[(L,'''	if l.file == nil {
		return nil
	}
	err := l.file.Close()
	l.file = nil
	return err
''','''	f := l.file
	if f != nil {
		l.file = nil
		return f.Close()
	}
	return nil
''')]),
('s3','C20',[(L,'''	if err := l.close(); err != nil {
		return err
	}
	if err := l.openNew(); err != nil {
		return err
	}
	l.mill()
	return nil
''','''	err := l.close()
	if err == nil {
		err = l.openNew()
	}
	if err == nil {
		l.mill()
	}
	return err
''')]),
('s4','C20',[(L,'''	if os.IsNotExist(err) {
		return l.openNew()
	}
	if err != nil {
		return fmt.Errorf("error getting log file info: %s", err)
	}

	if info.Size()+int64(writeLen) >= l.max() {
		return l.rotate()
	}
''','''	switch {
	case os.IsNotExist(err):
		return l.openNew()
	case err != nil:
		return fmt.Errorf("error getting log file info: %s", err)
	}

	size := info.Size()
	if l.max() <= size+int64(writeLen) {
		return l.rotate()
	}
''')]),
('s5','C20',[(L,'''		format := l.BackupTimeFormat
		if format == "" {
			format = defaultBackupTimeFormat
		}
		newname := backupName(name, l.LocalTime, format)
		if err := os.Rename(name, newname); err != nil {
''','''		newname := backupName(name, l.LocalTime, l.timeFormat())
		if err := os.Rename(name, newname); err != nil {
'''),(L,'''// backupName creates a new''','''func (l *Logger) timeFormat() string {
	if l.BackupTimeFormat != "" {
		return l.BackupTimeFormat
	}
	return defaultBackupTimeFormat
}

// backupName creates a new''')]),
('s6','C20',[(L,'''	l.mu.Lock()
	defer l.mu.Unlock()
	return l.rotate()
''','''	l.mu.Lock()
	err := l.rotate()
	l.mu.Unlock()
	return err
''')]),
('s7','C20',[(L,'''		preserved := make(map[string]bool)
		var remaining []logInfo
		for _, f := range files {
			// Only count the uncompressed log file or the
			// compressed log file, not both.
			fn := f.Name()
			if strings.HasSuffix(fn, compressSuffix) {
				fn = fn[:len(fn)-len(compressSuffix)]
			}
			preserved[fn] = true
''','''		preserved := map[string]bool{}
		remaining := []logInfo{}
		for i := range files {
			f := files[i]
			fn := strings.TrimSuffix(f.Name(), compressSuffix)
			preserved[fn] = true
''')]),
]
