#!/usr/bin/env python3
"""The properties: writes properties.jsonl and MANIFEST.json. A property is claimed when props/<id>.py exists."""
import json, os
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, C, I, P, H, K, F = 'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'
NOTEST = 'The 18 tests exercise list containers, string helpers and option parsing in isolation; no test starts the daemon, lets time pass, kills a process or injects a fault. '
L = []
def p(id, title, st, over, q, why, files, mech, obs, state=None):
    assert len(title) <= 80, (len(title), title)
    L.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=NOTEST + why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], observe_at=obs)))

p('P01', 'Time-and-date jobs run once at every matching minute and at no other time',
  'A job given by minute, hour, day, month and weekday fields starts within a few seconds of the beginning of every minute that matches its fields in its time zone while fcron is up, exactly once per minute, and never at another time. At a forward clock change a job whose local time is skipped runs within the hour after the change, and a local time that occurs twice runs the job exactly once.',
  [S, I, K], 'all field specifications (lists, ranges, wrap-around ranges, exclusions, names, dayand/dayor), all zones, all dates, all interleavings with other jobs and operators',
  'The calendar walk, the time zone switch and the sorted queue interact over years of simulated time.', ['database.c', 'fileconf.c', 'fcron.c'],
  [('walk to the next matching minute', 'database.c:set_next_exe'), ('field parser', 'fileconf.c:read_field'), ('due jobs', 'database.c:test_jobs')], ['execve of the job shell, with its time'])
p('P02', 'Every-nth jobs and start jitter keep their exact count, also across restarts',
  'A time-and-date job with run frequency N runs at exactly every N-th matching minute, the first time at the N-th, and the count carries over orderly restarts of fcron. A job with a jitter of J seconds starts between 0 and J seconds after the minute that matches, at most once per match.',
  [S, I, H], 'all N, J, fields, all orderly restart times', 'Counting across saves, reloads and restarts is a history property.', ['database.c', 'conf.c', 'save.c', 'fileconf.c'],
  [('remaining matches', 'database.c:test_jobs'), ('persistence', 'save.c:write_file_to_disk'), ('jitter', 'database.c:set_next_exe')], ['execve of the job shell'], [('cl_remain', 'matches left before the next run', 'global.h')])
p('P03', 'Periodical jobs run exactly once in each of their periods',
  'A job to be run once per period (hour, day, week, month, their shifted variants, or one run per interval of matching fields) runs exactly once in every period that contains an allowed minute during which fcron is up, as soon as possible and only at allowed times, however often fcron is restarted in between. With the random option it runs exactly once, at a time within an allowed interval.',
  [S, I, H, C], 'all keywords and fields, all restart and down times, all dates', 'The once-per-period promise spans restarts and down times of any length.', ['database.c', 'fileconf.c', 'conf.c'],
  [('start of next period', 'database.c:goto_beginning_next_period_periodical'), ('interval walk', 'database.c:move_time_to'), ('catch-up at startup', 'database.c:set_next_exe_startup')], ['execve of the job shell'])
p('P04', 'Uptime jobs run after exactly their frequency of fcron uptime',
  'A job based on system up time first runs after its first delay and then every frequency seconds of time during which fcron is running and the machine is neither off nor suspended, and the elapsed part of a delay survives an orderly stop and start. After a crash at most the time since the last periodic save (1800 s by default) is lost.',
  [S, C, H, I], 'all delays and frequencies, all sequences of orderly restarts, crashes and suspends', 'Uptime accounting only fails over a history of stops, crashes and suspends.', ['database.c', 'save.c', 'conf.c', 'suspend.c', 'fcron.c'],
  [('uptime shift', 'database.c:set_next_exe_startup'), ('saved remaining time', 'save.c:write_file_to_disk'), ('suspend time', 'suspend.c:check_suspend'), ('periodic save', 'fcron.c:main_loop')], ['execve of the job shell'])
p('P05', 'Boot, resume, once and volatile options decide what runs after a restart',
  'A runatreboot (runatresume) job runs right after each system boot (resume) and not at a mere restart of fcron; a runonce job runs at most once per system boot (per fcron start if volatile); a volatile or rebootreset uptime job counts again from its first delay at each fcron start or reboot. A bootrun job that was due during down time runs once after startup, and a job without it does not.',
  [H, C, S, K], 'all combinations of the options, all histories of reboots, restarts, suspends and reloads', 'Needs histories of reboots, restarts and suspends.', ['database.c', 'fcron.c', 'conf.c', 'suspend.c', 'fileconf.c'],
  [('startup context', 'database.c:set_next_exe_startup'), ('boot detection', 'fcron.c:is_system_startup'), ('shortcuts', 'fileconf.c:read_shortcut')], ['execve of the job shell'])
p('P06', 'A job is never running or queued twice at once unless it asked for it',
  'At no time are two instances of one job running, whatever starts them (schedule, catch-up at startup, resume, queues, fcrondyn), unless the job has exesev (normal jobs) or serialonce/lavgonce disabled (queued jobs). A run skipped for that reason never blocks later runs of the job.',
  [S, H, I], 'all job durations, schedules, queue states, operator commands and signals', 'Needs overlapping executions under a controlled scheduler.', ['database.c', 'fcrondyn_svr.c'],
  [('count of running or queued instances', 'database.c:run_normal_job'), ('queue admission', 'database.c:add_serial_job'), ('completion', 'database.c:wait_chld')], ['execve and exit of the job shell'], [('cl_numexe', 'instances queued or running', 'global.h')])
p('P07', 'Serial jobs respect the limit of simultaneous runs and their queue order',
  'Serial jobs never run more at once than the limit given by -m, they start in the order in which they became due, and every queued serial job starts promptly once a place is free. The same limit holds for serial jobs that also wait for the load average.',
  [S, H, I, K], 'all sets of serial jobs, durations, limits, restarts and reloads while the queue is not empty', 'The ring buffer, its growth and the counters depend on the history.', ['database.c', 'fcron.c', 'conf.c'],
  [('serial queue', 'database.c:add_serial_job'), ('next serial job', 'database.c:run_serial_job'), ('completion', 'database.c:wait_chld'), ('queue at file removal', 'conf.c:delete_file')], ['execve and exit of the job shell'], [('serial_running', 'serial jobs running', 'database.c'), ('serial_array', 'ring of queued jobs', 'database.c')])
p('P08', 'A full queue rejects jobs without losing queued ones or blocking later ones',
  'When the serial or load-average queue holds its maximum number of jobs, a further job is refused with an error (and a mail if noticenotrun is set) and runs again at its next scheduled time. Every job accepted in a queue runs exactly once.',
  [S, H, K], 'all queue limits, job sets and durations', 'The limit is reached only by histories with many pending jobs.', ['database.c', 'u_list.c', 'lavg_list.c'],
  [('serial queue growth', 'database.c:add_serial_job'), ('lavg list growth', 'u_list.c:u_list_resize_array')], ['execve of the job shell', 'mailer'])
p('P09', 'Load-average jobs start only below their thresholds or when their limit expires',
  'A job with load-average thresholds starts only at a moment when the one, five and fifteen minute averages satisfy them (all, or any with the or option), within one polling interval of that becoming true, in the absence of a time limit. With until it is started at the latest when its time limit ends, and with strict it is dropped rather than run outside its interval.',
  [S, H, I, F], 'all thresholds, load histories, until, strict and serial options', 'Needs control over load and time.', ['database.c', 'lavg_list.c', 'u_list.c'],
  [('polling', 'database.c:check_lavg'), ('deadline', 'database.c:add_lavg_job')], ['execve of the job shell'])
p('P10', 'Installing an fcrontab is atomic and, once reported, durable',
  'At every instant and after a crash at any point, including power loss, the table in force for a user and its source are entirely the old or entirely the new version. Once fcrontab has exited successfully the new version survives a crash; if it reports a failure the daemon keeps running the old table.',
  [C, F, S], 'all crash points, failing or short writes, full disks, renames', 'Needs enumeration of crash points and disk faults.', ['save.c', 'fcrontab.c', 'fileconf.c', 'conf.c', 'subs.c'],
  [('write, sync, rename', 'save.c:save_file_safe'), ('take over of new tables', 'conf.c:synchronize_file')], ['file contents after the crash', 'fcrontab -l', 'the jobs that run'])
p('P11', 'The saved state of jobs survives crashes and disk errors without corruption',
  'Whatever crash, full disk or write error happens while the daemon saves its state, every user keeps a loadable table with exactly their jobs, with the schedule of the last or the previous save, and the daemon keeps running jobs.',
  [C, F, S], 'all crash points and disk faults during saves', 'Needs enumeration of crash points and disk faults.', ['save.c', 'conf.c', 'subs.c'],
  [('write to a temporary file and rename', 'save.c:save_file_safe'), ('load', 'conf.c:read_file')], ['jobs that run after the restart'])
p('P12', 'Installing or removing a table takes effect in bounded time and is never lost',
  'After fcrontab has installed or removed a table, the daemon runs the new jobs and no longer the old ones within the reload delay plus a bounded time, however the request coincides with other requests, jobs, signals or a daemon start. A job kept unchanged by an edit keeps its schedule.',
  [S, H, C], 'all interleavings of fcrontab, fcronsighup, jobs and the main loop', 'A lost wake-up shows only in particular interleavings.', ['fcron.c', 'fcronsighup.c', 'fcrontab.c', 'conf.c', 'select.c'],
  [('signal flags', 'fcron.c:check_signal'), ('delayed reload', 'fcronsighup.c:sig_daemon'), ('removal', 'conf.c:delete_file')], ['execve of the job shell'])
p('P13', 'A job runs with exactly the rights of its user, inheriting nothing else',
  'Every job, and every mailer, runs with the uid, gid and supplementary groups of the user in its table (or of the runas user, which only root may give), or does not run at all if a privilege call or PAM fails. It has no open descriptor of the daemon, default signal dispositions and no blocked signals.',
  [F, S, I], 'all users, runas settings and failing system or PAM calls', 'A fault at one privilege call is needed to see it.', ['job.c', 'fileconf.c', 'conf.c', 'suspend.c'],
  [('change of identity', 'job.c:become_user'), ('PAM session', 'job.c:setup_user_and_env'), ('runas check', 'fileconf.c:read_opt')], ['credentials, descriptors and signals at execve'])
p('P14', 'A job runs its exact command in the environment its table describes',
  'The shell receives exactly the command written in the table, in the home directory, with the umask, nice value, and the environment variables set in its table (the last setting of each), plus HOME, USER, LOGNAME, SHELL and a default PATH, and with nothing from other tables or from the daemon.',
  [I, K, H], 'all commands, variables, options and restarts', 'The save format, the parser and the launch must agree for every input.', ['job.c', 'fileconf.c', 'save.c', 'conf.c', 'env_list.c'],
  [('environment', 'job.c:setup_user_and_env'), ('reader', 'fileconf.c:read_env'), ('saved form', 'save.c:write_file_to_disk')], ['argv, environment, cwd, umask and nice at execve'])
p('P15', 'Job output is mailed complete, to the right person, exactly when asked',
  'When a job that must be mailed ends, exactly one mail is sent to its mail recipient, as its user, holding every byte the job wrote and its exit status; no mail is sent when the options or an empty output with a successful exit say so. Slow, failing or absent mailers lose at most that mail and never block the daemon or other jobs.',
  [S, I, F], 'all outputs, sizes, chunkings, exit statuses, options, schedules and mailer faults', 'Pipes, partial reads and faults are needed.', ['job.c', 'mail.c'],
  [('capture of output', 'job.c:run_job'), ('decision', 'job.c:end_job'), ('headers', 'job.c:create_mail')], ['arguments, identity and input of the mailer'])
p('P16', 'Only allowed users can change tables, and only their own',
  'A user not allowed by fcron.allow and fcron.deny cannot install, list, edit or remove a table or use fcrondyn; no user but root can do any of it for another user or set options reserved to root; and this holds even when reading the lists fails.',
  [I, K, F], 'all allow and deny files, users, arguments and read faults', 'Needs the setuid program run under many identities and faults.', ['allow.c', 'fcrontab.c', 'fcrondyn.c', 'fcronsighup.c', 'fileconf.c'],
  [('lists', 'allow.c:is_allowed'), ('identity', 'fcrontab.c:main'), ('root only options', 'fileconf.c:read_opt')], ['exit status, the spool directory'])
p('P17', 'fcrondyn users can see and act on their own jobs only',
  'Over the daemon socket a user other than root can list, run, kill or renice only jobs of their own table, whatever bytes they send; the identity used is that of the peer process, or of a right password when it has no account, with a limit on wrong ones; negative nice values are reserved to root.',
  [I, S], 'all byte sequences and users, all job sets', 'Raw clients against the daemon are needed.', ['fcrondyn_svr.c', 'dyncom.h'],
  [('peer identity', 'fcrondyn_svr.c:auth_client_so_peercred'), ('owner test', 'fcrondyn_svr.c:cmd_ls, cmd_on_exeq, cmd_run')], ['bytes received by clients', 'signals, renices and executions'])
p('P18', 'Every fcrondyn request is answered completely, whatever other clients do',
  'A well-formed request gets the complete answer followed by one end marker within a bounded time, whatever the size of the answer and whatever slow, idle, malformed or disconnecting clients do; idle and unauthenticated connections are closed in time and the number of connections is bounded.',
  [S, I, F], 'all client behaviours, message splits and delays', 'Needs adversarial clients and schedules.', ['fcrondyn_svr.c', 'fcrondyn.c', 'select.c'],
  [('server loop', 'fcrondyn_svr.c:fcrondyn_socket_check'), ('client loop', 'fcrondyn.c:talk_fcron')], ['output of fcrondyn', 'bytes received by clients'])
p('P19', 'fcrondyn commands do exactly what they say',
  'run starts the job once promptly without changing its schedule, runnow starts it once promptly and moves its next execution to the following one of its schedule, kill and renice reach the processes of exactly the named job, and the listings agree with the jobs scheduled, running and queued at that time, in the order and with the next time asked for.',
  [S, H, I], 'all job sets, queue states and command sequences', 'Needs live daemon states.', ['fcrondyn_svr.c', 'fcrondyn.c', 'database.c'],
  [('execution', 'fcrondyn_svr.c:exe_cmd'), ('listing', 'fcrondyn_svr.c:cmd_ls')], ['execve, kill, setpriority', 'output of fcrondyn'])
p('P20', 'At most one daemon runs, and a start is never blocked by a dead one',
  'Of any number of daemons started at any times with one configuration, at most one ever runs jobs at a time; the others exit with an error and without touching anything. After the running one ends in any way, the next start succeeds.',
  [S, C, H], 'all interleavings of starts, stops, kills and crashes', 'A race between two starts is needed.', ['fcron.c'],
  [('lock of the pid file', 'fcron.c:get_lock')], ['execve of the job shell', 'exit status of daemons', 'pid file'])
p('P21', 'Transient faults of system calls never stop the daemon or its scheduling',
  'When calls such as fork, pipe, open, write, rename, getloadavg, select or accept fail for a while, the daemon survives, may skip or delay runs due in that time, and when the faults stop every job runs again on schedule with no double runs and no blocked queue.',
  [F, S], 'all transient faults of calls made by the daemon', 'Needs fault injection.', ['database.c', 'job.c', 'fcron.c', 'fcrondyn_svr.c', 'conf.c', 'save.c'],
  [('errors of a launch', 'job.c:run_job'), ('roll back', 'database.c:run_queue_job')], ['execve of the job shell'])
p('P22', 'A daemon in steady use does not accumulate descriptors, zombies, memory or files',
  'However many jobs, mails, reloads, client connections and faults it has handled, an idle daemon holds the descriptors it had at first, no unreaped children beyond those pending, memory bounded by its tables, no busy loop, and no left-over temporary files.',
  [H, F, S], 'all long histories', 'Only long histories show leaks.', ['job.c', 'database.c', 'fcron.c', 'fcrondyn_svr.c', 'conf.c', 'temp_file.c'],
  [('closing of pipes', 'job.c:run_job'), ('freeing', 'cl.c:free_line'), ('reaping', 'database.c:wait_chld')], ['descriptors, children, live heap, wake-ups of the daemon'])
p('P23', 'An orderly stop waits for jobs and keeps every schedule',
  'On SIGTERM the daemon starts no further job, waits for the running ones, saves the state so that nothing already run is run again and nothing is forgotten, and exits with success; with -o it runs what is due and queued and exits.',
  [S, C, H], 'all moments of the signal', 'The moment of the signal matters.', ['fcron.c', 'database.c', 'save.c'],
  [('exit', 'fcron.c:xexit'), ('waiting', 'database.c:wait_all')], ['execve and exit of jobs and daemon'])
p('P24', 'A damaged spool file harms only its owner and never the daemon',
  'Whatever bytes are in a saved table, the daemon starts, does not crash, hang or execute anything under another identity, and runs the jobs of every other user on schedule; the owner can install a good table again.',
  [I, F, C], 'all contents of the spool directory', 'All byte contents.', ['conf.c', 'database.c', 'cl.c'],
  [('reader', 'conf.c:read_file')], ['execve of the job shell', 'death of the daemon'])
p('P25', 'Non-executions are announced when and only when asked, with true facts',
  'A job with noticenotrun whose scheduled run was missed because fcron was down or suspended, or because its load limit expired or its queue was full, gives one mail naming the job, the time since which it was missed and the next execution time; other jobs give none.',
  [H, S, I], 'all down times, schedules and options', 'Needs down times and load histories.', ['database.c', 'job.c'],
  [('detection', 'database.c:set_next_exe_notrun'), ('mail', 'database.c:mail_notrun')], ['mailer input'])
p('P26', 'fcrontab reports and keeps exactly the table it was given',
  'fcrontab -l prints byte for byte the last table successfully installed by any of its modes, -e keeps the old table unless the edit is saved, -r leaves nothing behind, and a table with errors is never installed silently in part.',
  [I, S, F], 'all tables, editors, faults and sequences of operations', 'Sequences and faults are needed.', ['fcrontab.c', 'fileconf.c', 'temp_file.c'],
  [('copy of the source', 'fcrontab.c:copy_src'), ('editing', 'fcrontab.c:edit_file'), ('removal', 'fcrontab.c:remove_fcrontab')], ['output and exit status of fcrontab', 'jobs that run'])
p('P27', 'Changes of the system clock neither burst nor silence jobs',
  'After the clock is set forwards or backwards, each job runs as soon as the clock shows its planned time and is planned anew from the clock of that moment: it is run at most once for the time skipped, not silent for longer than the change, and an uptime job is never run twice within its frequency as counted by the clock; a suspension among such changes is counted as what it was.',
  [H, S], 'all clock changes', 'Needs a simulated clock.', ['fcron.c', 'database.c', 'suspend.c', 'subs.c'],
  [('main loop', 'fcron.c:main_loop'), ('suspend detection', 'suspend.c:check_suspend')], ['execve of the job shell'])
p('P28', 'A job interrupted by a crash is run again once, and nothing else changes',
  'After the daemon is killed or the machine crashes, jobs recorded as running when the state was last saved are run again once after the restart (unless their options forbid it), no other job runs outside its schedule, and no later run is lost.',
  [C, H, S], 'all crash points', 'Needs crashes.', ['database.c', 'save.c', 'conf.c', 'fcron.c'],
  [('saved running count', 'save.c:write_file_to_disk'), ('restart of interrupted jobs', 'database.c:set_next_exe_startup')], ['execve of the job shell'])
p('P29', 'No job runs in the first seconds after startup',
  'After it starts, the daemon runs no scheduled job before the delay given by -l (20 s by default), and then runs what has become due, whatever signals and clients arrive meanwhile.',
  [S, H, K], 'all delays, signals and clients', 'Needs events within the delay.', ['fcron.c', 'database.c'], [('first wake up', 'fcron.c:main_loop')], ['execve of the job shell'])
p('P30', 'No input makes the fcron programs crash, hang or corrupt memory',
  'Whatever table, option, configuration file, environment, or client message is given, the programs neither access memory out of bounds, nor use freed memory, nor loop for ever, and a table that is refused leaves the installed one in force.',
  [I, F], 'all inputs, with failing calls', 'All inputs.', ['fileconf.c', 'fcronconf.c', 'fcrontab.c', 'fcrondyn.c', 'fcrondyn_svr.c', 'mail.c', 'allow.c'],
  [('line reader', 'fileconf.c:get_line'), ('option reader', 'fileconf.c:read_opt'), ('configuration', 'fcronconf.c:read_conf')], ['memory checks of the simulator', 'exit status'])

p('P31', 'The log tells the truth about every job and is the same in every log',
  'Every run of a job is logged once when it starts (user, process) and once when it ends (exit status or signal, whether its output is mailed), unless the job has nolog, which suppresses everything but errors; nothing is logged that did not happen, and every job that cannot be run leaves an error. The system log and the log file of -p hold the same dated records, -y silences the system log only, and the schedule printed on SIGUSR2 is the one that is followed.',
  [S, F, H, K], 'all jobs, results, log destinations and failures', 'Needs jobs of other users, failing calls and several processes writing one log.', ['log.c', 'job.c', 'fcron.c'],
  [('records', 'log.c:xlog'), ('start of a job', 'job.c:run_job'), ('end of a job', 'job.c:end_job'), ('printed schedule', 'fcron.c:print_schedule')], ['records sent to the system log', 'the log file', 'standard error of fcron -f'])
p('P32', 'A password asked by fcrontab decides, is never shown, and the question ends',
  'When PAM asks for a password, fcrontab changes or shows a table only if the right one is given; the password is never echoed, printed or logged, the terminal is left as it was found however the reading ends (including the keys that interrupt a program), and the end or failure of the input ends the program.',
  [I, S, F], 'all answers, terminals, pipes, hang-ups and interruptions', 'Needs a terminal, PAM and signals at every point of the dialogue.', ['read_string.c', 'fcrontab.c'],
  [('reading without echo', 'read_string.c:read_string'), ('PAM conversation', 'fcrontab.c:fcrontab_conv')], ['echo state of the terminal at every read', 'installed tables', 'exit status'])

LEVEL = {'P10': 'fault_enumeration', 'P11': 'fault_enumeration'}
NOTE = 'Seeded search over simulated executions of the real fcron programs (compiled from /repo) on a simulated operating system; a quiet run is evidence over the sampled executions, not a proof. Trusts the simulated system calls, the stub shell, mailer, editor and PAM, and the reference model of this property.'
NA = {}
if __name__ == '__main__':
    with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
        for x in L: f.write(json.dumps(x) + '\n')
    ch, na = [], []
    for x in L:
        i = x['id']
        if os.path.exists(os.path.join(TOP, 'props', i.lower() + '.py')):
            ch.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i, technique='deterministic simulation with fault injection', level='exploration', level_note=NOTE))
        else: na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
    json.dump(dict(version=1, setup_cmd='python3 sim/build.py', checks=ch, not_applicable=na, notes='See DESIGN.md. No hooks in /repo: the programs are compiled unchanged and their libc calls are redirected at link time.'), open(os.path.join(TOP, 'MANIFEST.json'), 'w'), indent=1)
    print('%d claimed, %d not' % (len(ch), len(na)))
