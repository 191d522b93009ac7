# ---- process metrics: C22 ----
# osru(field, who): the figure the operating system accounts under that name.
fun osru(string, int) int

# ruok: whether the (single) query of the system succeeds
ghost ruok bool
extern syscall.Getrusage(who, ru) (err)
  ensures err == nil <==> ruok
  modifies *ru
  ensures err == nil ==> ru.Utime.Sec == osru("Utime.Sec", who) && ru.Utime.Usec == osru("Utime.Usec", who)
     && ru.Stime.Sec == osru("Stime.Sec", who) && ru.Stime.Usec == osru("Stime.Usec", who)
  ensures err == nil ==> ru.Maxrss == osru("Maxrss", who)
  ensures err == nil ==> ru.Ixrss == osru("Ixrss", who)
  ensures err == nil ==> ru.Idrss == osru("Idrss", who)
  ensures err == nil ==> ru.Isrss == osru("Isrss", who)
  ensures err == nil ==> ru.Minflt == osru("Minflt", who)
  ensures err == nil ==> ru.Majflt == osru("Majflt", who)
  ensures err == nil ==> ru.Nswap == osru("Nswap", who)
  ensures err == nil ==> ru.Inblock == osru("Inblock", who)
  ensures err == nil ==> ru.Oublock == osru("Oublock", who)
  ensures err == nil ==> ru.Msgsnd == osru("Msgsnd", who)
  ensures err == nil ==> ru.Msgrcv == osru("Msgrcv", who)
  ensures err == nil ==> ru.Nsignals == osru("Nsignals", who)
  ensures err == nil ==> ru.Nvcsw == osru("Nvcsw", who)
  ensures err == nil ==> ru.Nivcsw == osru("Nivcsw", who)

func wrapper.Getrusage(who, rusage) (err)
  prop C22
  requires rusage != nil
  modifies *rusage
  ensures[C22] result: err == nil <==> ruok
  ensures[C22] utime: err == nil ==> rusage.Utime.Sec == osru("Utime.Sec", who) && rusage.Utime.Usec == osru("Utime.Usec", who)
  ensures[C22] stime: err == nil ==> rusage.Stime.Sec == osru("Stime.Sec", who) && rusage.Stime.Usec == osru("Stime.Usec", who)
  ensures[C22] maxrss: err == nil ==> rusage.Maxrss == wrap(osru("Maxrss", who)*1024, int64)
  ensures[C22] ixrss: err == nil ==> rusage.Ixrss == wrap(osru("Ixrss", who)*1024, int64)
  ensures[C22] idrss: err == nil ==> rusage.Idrss == wrap(osru("Idrss", who)*1024, int64)
  ensures[C22] isrss: err == nil ==> rusage.Isrss == wrap(osru("Isrss", who)*1024, int64)
  ensures[C22] minflt: err == nil ==> rusage.Minflt == osru("Minflt", who)
  ensures[C22] majflt: err == nil ==> rusage.Majflt == osru("Majflt", who)
  ensures[C22] nswap: err == nil ==> rusage.Nswap == osru("Nswap", who)
  ensures[C22] inblock: err == nil ==> rusage.Inblock == osru("Inblock", who)
  ensures[C22] oublock: err == nil ==> rusage.Oublock == osru("Oublock", who)
  ensures[C22] msgsnd: err == nil ==> rusage.Msgsnd == osru("Msgsnd", who)
  ensures[C22] msgrcv: err == nil ==> rusage.Msgrcv == osru("Msgrcv", who)
  ensures[C22] nsignals: err == nil ==> rusage.Nsignals == osru("Nsignals", who)
  ensures[C22] nvcsw: err == nil ==> rusage.Nvcsw == osru("Nvcsw", who)
  ensures[C22] nivcsw: err == nil ==> rusage.Nivcsw == osru("Nivcsw", who)
  ensures[C22] failed: err != nil ==> rusage.Utime.Sec == old(rusage.Utime.Sec) && rusage.Utime.Usec == old(rusage.Utime.Usec) && rusage.Stime.Sec == old(rusage.Stime.Sec) && rusage.Stime.Usec == old(rusage.Stime.Usec) && rusage.Maxrss == old(rusage.Maxrss) && rusage.Ixrss == old(rusage.Ixrss) && rusage.Idrss == old(rusage.Idrss) && rusage.Isrss == old(rusage.Isrss) && rusage.Minflt == old(rusage.Minflt) && rusage.Majflt == old(rusage.Majflt) && rusage.Nswap == old(rusage.Nswap) && rusage.Inblock == old(rusage.Inblock) && rusage.Oublock == old(rusage.Oublock) && rusage.Msgsnd == old(rusage.Msgsnd) && rusage.Msgrcv == old(rusage.Msgrcv) && rusage.Nsignals == old(rusage.Nsignals) && rusage.Nvcsw == old(rusage.Nvcsw) && rusage.Nivcsw == old(rusage.Nivcsw)

func tricorder.timeValToDuration(val) (d)
  optional
  prop C22
  requires val != nil && inrange(val.Sec*1000000000 + val.Usec*1000, int64) && inrange(val.Sec*1000000000, int64) && inrange(val.Usec*1000, int64)
  ensures[C22] exact: d == val.Sec*1000000000 + val.Usec*1000

# What initDefaultMetrics registers, and what the registered variables hold
# once the update function of their group has run.
ghost regvar map(string,iface)
ghost reggroup map(string,int)
ghost updfn map(int,int)
ghost sysmem int
ghost released int

trusted tricorder.NewGroup@C22() (g)
  ensures g != nil && fresh(g)
trusted (*tricorder.Group).RegisterUpdateFunc@C22(g, f)
  modifies updfn
  ensures updfn == store(old(updfn), ref(g), ref(f))
trusted tricorder.RegisterMetricInGroup@C22(path, metric, g, unit, description) (err)
  modifies regvar, reggroup
  ensures regvar == store(old(regvar), path, metric)
  ensures reggroup == store(old(reggroup), path, ref(g))
trusted tricorder.RegisterMetric@C22(path, metric, unit, description) (err)
  modifies regvar
  ensures regvar == store(old(regvar), path, metric)
trusted tricorder.countOpenFileDescriptors@C22() (n)
trusted tricorder.getProgramArgs@C22() (s)
extern runtime.Version() (s)
extern runtime.NumGoroutine() (n)
extern runtime.ReadMemStats(m)
  modifies *m

pred osdur(sec, usec) = osru(sec, syscall.RUSAGE_SELF)*1000000000 + osru(usec, syscall.RUSAGE_SELF)*1000

func tricorder.initDefaultMetrics()
  prop C22
  modifies_all
  requires len(os.Args) > 0
  requires 0 <= osru("Utime.Sec", 0) && osru("Utime.Sec", 0) < 4000000000 && 0 <= osru("Utime.Usec", 0) && osru("Utime.Usec", 0) < 1000000
  requires 0 <= osru("Stime.Sec", 0) && osru("Stime.Sec", 0) < 4000000000 && 0 <= osru("Stime.Usec", 0) && osru("Stime.Usec", 0) < 1000000
  after updfn[reggroup["/proc/cpu/user"]]
  ensures[C22] user: ruok ==> typeis(regvar["/proc/cpu/user"], *time.Duration) && *(regvar["/proc/cpu/user"].(*time.Duration)) == osdur("Utime.Sec", "Utime.Usec")
  ensures[C22] sys: ruok ==> *(regvar["/proc/cpu/sys"].(*time.Duration)) == osdur("Stime.Sec", "Stime.Usec")
  ensures[C22] group: reggroup["/proc/cpu/user"] == reggroup["/proc/cpu/sys"]
  ensures[C22] maxrss: ruok ==> *(regvar["/proc/memory/max-resident-set-size"].(*int64)) == wrap(osru("Maxrss", 0)*1024, int64) && reggroup["/proc/memory/max-resident-set-size"] == reggroup["/proc/cpu/user"]
  ensures[C22] ixrss: ruok ==> *(regvar["/proc/memory/shared"].(*int64)) == wrap(osru("Ixrss", 0)*1024, int64) && reggroup["/proc/memory/shared"] == reggroup["/proc/cpu/user"]
  ensures[C22] idrss: ruok ==> *(regvar["/proc/memory/unshared-data"].(*int64)) == wrap(osru("Idrss", 0)*1024, int64) && reggroup["/proc/memory/unshared-data"] == reggroup["/proc/cpu/user"]
  ensures[C22] isrss: ruok ==> *(regvar["/proc/memory/unshared-stack"].(*int64)) == wrap(osru("Isrss", 0)*1024, int64) && reggroup["/proc/memory/unshared-stack"] == reggroup["/proc/cpu/user"]
  ensures[C22] minflt: ruok ==> *(regvar["/proc/memory/soft-page-fault"].(*int64)) == osru("Minflt", 0) && reggroup["/proc/memory/soft-page-fault"] == reggroup["/proc/cpu/user"]
  ensures[C22] majflt: ruok ==> *(regvar["/proc/memory/hard-page-fault"].(*int64)) == osru("Majflt", 0) && reggroup["/proc/memory/hard-page-fault"] == reggroup["/proc/cpu/user"]
  ensures[C22] nswap: ruok ==> *(regvar["/proc/memory/swaps"].(*int64)) == osru("Nswap", 0) && reggroup["/proc/memory/swaps"] == reggroup["/proc/cpu/user"]
  ensures[C22] inblock: ruok ==> *(regvar["/proc/io/input"].(*int64)) == osru("Inblock", 0) && reggroup["/proc/io/input"] == reggroup["/proc/cpu/user"]
  ensures[C22] oublock: ruok ==> *(regvar["/proc/io/output"].(*int64)) == osru("Oublock", 0) && reggroup["/proc/io/output"] == reggroup["/proc/cpu/user"]
  ensures[C22] msgsnd: ruok ==> *(regvar["/proc/ipc/sent"].(*int64)) == osru("Msgsnd", 0) && reggroup["/proc/ipc/sent"] == reggroup["/proc/cpu/user"]
  ensures[C22] msgrcv: ruok ==> *(regvar["/proc/ipc/received"].(*int64)) == osru("Msgrcv", 0) && reggroup["/proc/ipc/received"] == reggroup["/proc/cpu/user"]
  ensures[C22] nsignals: ruok ==> *(regvar["/proc/signals/received"].(*int64)) == osru("Nsignals", 0) && reggroup["/proc/signals/received"] == reggroup["/proc/cpu/user"]
  ensures[C22] nivcsw: ruok ==> *(regvar["/proc/scheduler/involuntary-switches"].(*int64)) == osru("Nivcsw", 0) && reggroup["/proc/scheduler/involuntary-switches"] == reggroup["/proc/cpu/user"]
  ensures[C22] nvcsw: ruok ==> *(regvar["/proc/scheduler/voluntary-switches"].(*int64)) == osru("Nvcsw", 0) && reggroup["/proc/scheduler/voluntary-switches"] == reggroup["/proc/cpu/user"]
