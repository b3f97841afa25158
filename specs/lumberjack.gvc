// C20: rotating log files. The current log file (logname): does it exist, how long it is, which
// handle is open on it; and whether a file with content was ever truncated.
ghost logname seq
ghost curexists bool
ghost cursize int
ghost curfile int
ghost truncated bool
ghost renames int
ghost renamedsize int
ghost lastwrite seq
fn infosize(i int) int
fn appends(flag int) bool = (flag / 1024) % 2 == 1
fn truncates(flag int) bool = (flag / 512) % 2 == 1
contract funcvalue:func(name string) (io/fs.FileInfo, error) ~ (self, name) info, err
trusted os.Stat: tells whether the file exists, and its size
requires log: name == logname
ensures iff(err == nil, curexists)
ensures implies(err == nil, info != nil && infosize(info) == cursize && 0 <= cursize && cursize < 4611686018427387904)
end
contract os.Stat(name) info, err
trusted os.Stat: tells whether the file exists, and its size
requires log: name == logname
ensures iff(err == nil, curexists)
ensures implies(err == nil, info != nil && infosize(info) == cursize && 0 <= cursize && cursize < 4611686018427387904)
end
contract (io/fs.FileInfo).Size(recv) r
trusted
requires recv != nil
ensures r == infosize(recv)
end
contract (io/fs.FileInfo).Mode(recv) r
trusted
requires recv != nil
end
contract os.IsNotExist(err) r
trusted
ensures implies(r, err != nil)
end
contract os.OpenFile(name, flag, perm) r, err
trusted opens, creates or truncates the file
requires log: name == logname
requires append: truncates(flag) || appends(flag)
requires locked: held
modifies ghost cursize, ghost curexists, ghost curfile, ghost truncated
ensures implies(err != nil, cursize == old(cursize) && curexists == old(curexists) && curfile == old(curfile) && truncated == old(truncated))
ensures implies(err == nil, r != nil && curfile == r && curexists && cursize == ite(truncates(flag) || not(old(curexists)), 0, old(cursize)) && truncated == (old(truncated) || truncates(flag) && old(curexists) && old(cursize) > 0))
end
contract (*os.File).Close(recv) err
trusted
requires recv != nil
requires locked: held
end
contract os.Rename(oldpath, newpath) err
trusted moves the file; the new name is free
requires log: oldpath == logname && newpath != logname
requires exists: curexists
requires locked: held
modifies ghost cursize, ghost curexists, ghost renames, ghost renamedsize
ensures implies(err != nil, cursize == old(cursize) && curexists && renames == old(renames))
ensures implies(err == nil, cursize == 0 && not(curexists) && renames == old(renames) + 1 && renamedsize == old(cursize))
end
contract os.MkdirAll(path, perm) err
trusted
end
contract fmt.Errorf(format, a) r
trusted
ensures r != nil
end
contract (io/fs.FileInfo).Sys(recv) r
trusted what os.Stat gives on linux
requires recv != nil
ensures typeof(r) == typeid("*syscall.Stat_t") && payload("*syscall.Stat_t", r) != nil
end
contract os.Chown(name, uid, gid) err
trusted
requires log: name == logname
end
contract plz/countlog/output/lumberjack.chown(name, info) err
prop C20
requires held && name == logname && info != nil
requires free: not(curexists) && cursize == 0
modifies ghost cursize, ghost curexists, ghost curfile, ghost truncated
ensures created: implies(err == nil, curexists)
ensures empty: cursize == 0
ensures kept: truncated == old(truncated)
end
contract plz/countlog/output/lumberjack.backupName(name, local, backupTimeFormat) r
trusted the name with a time before its extension
ensures r != name
end
contract (*plz/countlog/output/lumberjack.Logger).mill(l)
trusted cleans up old files in the background, not the current one
modifies l.millCh
end
contract (*plz/countlog/output/lumberjack.Logger).dir(l) r
trusted
end
fn logger(l any) bool = l != nil && len(l.Filename) > 0 && l.Filename == logname && global("plz/countlog/output/lumberjack.os_Stat") != nil && global("plz/countlog/output/lumberjack.megabyte") == 1048576 && 0 <= l.MaxSize && l.MaxSize < 1099511627776
fn limit(l any) int = ite(l.MaxSize == 0, 100, l.MaxSize) * 1048576
fn opened(l any) bool = implies(l.file != nil, curexists && curfile == l.file && l.size == cursize && 0 <= cursize && cursize <= limit(l))
contract (*plz/countlog/output/lumberjack.Logger).max(l) r
prop C20
requires logger(l)
ensures limit: r == limit(l)
end
contract (*plz/countlog/output/lumberjack.Logger).filename(l) r
prop C20
requires logger(l)
ensures name: r == logname
end
contract (*plz/countlog/output/lumberjack.Logger).close(l) err
prop C20
requires held && l != nil
modifies l.file
ensures closed: l.file == nil
end
contract (*plz/countlog/output/lumberjack.Logger).openNew(l) err
prop C20
requires held && logger(l) && l.file == nil
modifies l.file, l.size, ghost cursize, ghost curexists, ghost curfile, ghost truncated, ghost renames, ghost renamedsize
ensures new: implies(err == nil, l.file != nil && opened(l) && l.size == 0)
ensures failed: implies(err != nil, l.file == nil)
ensures kept: truncated == old(truncated)
ensures moved: implies(err == nil && old(curexists) && old(cursize) > 0, renames == old(renames) + 1 && renamedsize == old(cursize))
ensures size: implies(renames != old(renames), renamedsize == old(cursize))
ensures once: renames >= old(renames) && renames <= old(renames) + 1 && implies(renames == old(renames), cursize == old(cursize) || not(old(curexists)) || err == nil)
end
contract (*plz/countlog/output/lumberjack.Logger).rotate(l) err
prop C20
requires held && logger(l) && opened(l)
modifies l.file, l.size, l.millCh, ghost cursize, ghost curexists, ghost curfile, ghost truncated, ghost renames, ghost renamedsize
ensures new: implies(err == nil, l.file != nil && opened(l) && l.size == 0)
ensures failed: implies(err != nil, l.file == nil)
ensures kept: truncated == old(truncated)
ensures moved: implies(err == nil && old(curexists) && old(cursize) > 0, renames == old(renames) + 1 && renamedsize == old(cursize))
ensures size: implies(renames != old(renames), renamedsize == old(cursize))
ensures once: renames >= old(renames) && renames <= old(renames) + 1
end
contract (*plz/countlog/output/lumberjack.Logger).openExistingOrNew(l, writeLen) err
prop C20
requires held && logger(l) && l.file == nil && 0 <= writeLen && writeLen <= limit(l)
modifies l.file, l.size, l.millCh, ghost cursize, ghost curexists, ghost curfile, ghost truncated, ghost renames, ghost renamedsize
ensures open: implies(err == nil, l.file != nil && opened(l) && l.size + writeLen <= limit(l))
ensures new: implies(err == nil && renames != old(renames), l.size == 0)
ensures failed: implies(err != nil, l.file == nil)
ensures kept: truncated == old(truncated)
ensures appended: implies(err == nil && old(curexists) && renames == old(renames), cursize == old(cursize))
ensures moved: implies(renames != old(renames), renames == old(renames) + 1 && renamedsize == old(cursize))
end
contract (*plz/countlog/output/lumberjack.Logger).Write(l, p) n, err
prop C20
requires logger(l) && opened(l) && not(held)
modifies l.file, l.size, l.millCh, ghost held, ghost mutexlist, ghost wcount, ghost wdest, ghost wowned, ghost lastwrite, ghost cursize, ghost curexists, ghost curfile, ghost truncated, ghost renames, ghost renamedsize
ensures invariant: opened(l) && not(held)
ensures whole: implies(err == nil, n == len(p) && wcount == old(wcount) + 1 && lastwrite == p)
ensures atmost: wcount <= old(wcount) + 1 && implies(wcount == old(wcount), err != nil && n == 0)
ensures refused: implies(len(p) > limit(l), err != nil && wcount == old(wcount) && cursize == old(cursize) && renames == old(renames))
ensures bounded: implies(err == nil, cursize <= limit(l))
ensures kept: truncated == old(truncated)
ensures appended: implies(err == nil && old(curexists) && renames == old(renames), cursize == old(cursize) + len(p))
ensures moved: implies(err == nil && renames != old(renames), renames == old(renames) + 1 && renamedsize == old(cursize) && cursize == len(p))
ensures needed: implies(old(l.file) != nil && old(cursize) + len(p) <= limit(l), renames == old(renames))
end
contract (*plz/countlog/output/lumberjack.Logger).Rotate(l) err
prop C20
requires logger(l) && opened(l) && not(held)
modifies l.file, l.size, l.millCh, ghost held, ghost mutexlist, ghost cursize, ghost curexists, ghost curfile, ghost truncated, ghost renames, ghost renamedsize
ensures invariant: opened(l) && not(held)
ensures kept: truncated == old(truncated)
ensures moved: implies(err == nil && old(curexists) && old(cursize) > 0, renames == old(renames) + 1 && renamedsize == old(cursize))
end
contract (*plz/countlog/output/lumberjack.Logger).Close(l) err
prop C20
requires l != nil && not(held)
modifies l.file, ghost held, ghost mutexlist
ensures closed: l.file == nil && not(held)
end

// which files of the directory the clean-up may touch: those whose name is prefix, time, extension
fn startswith(s seq, p seq) bool = len(s) >= len(p) && s[:len(p)] == p
fn endswith(s seq, p seq) bool = len(s) >= len(p) && s[len(s)-len(p):] == p
fn istime(layout seq, s seq) bool
contract strings.HasPrefix(s, prefix) r
trusted
ensures r == startswith(s, prefix)
end
contract strings.HasSuffix(s, suffix) r
trusted
ensures r == endswith(s, suffix)
end
contract time.Parse(layout, value) t, err
trusted
ensures (err == nil) == istime(layout, value)
end
contract (*plz/countlog/output/lumberjack.Logger).timeFromName(l, filename, prefix, ext) t, err
prop C20
requires l != nil
ensures matches: implies(err == nil, startswith(filename, prefix) && endswith(filename, ext) && len(filename) >= len(prefix) + len(ext))
ensures time: implies(err == nil && len(l.BackupTimeFormat) > 0, istime(l.BackupTimeFormat, filename[len(prefix) : len(filename)-len(ext)]))
end
