From 81a4a919e115bb33810fac2ef085b1db6f56f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 01/92] fix: the shell of a job was read after having been
 freed

setup_user_and_env() kept the pointer env_list_getenv() returned for SHELL, and
passed it as the new value to env_list_setenv(), which realloc()s that very
string. Whenever realloc() moved the block, the job's environment and the path
of the shell to execute were garbage, i.e. the job was not run.
---
 job.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/job.c b/job.c
index ef8b653..0564bf0 100644
--- a/job.c
+++ b/job.c
@@ -225,9 +225,13 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
 
             myshell = shell;
         }
+        /* env_list_setenv() frees the current value of SHELL, to which myshell
+         * may point: work on a copy */
+        myshell = strdup2(myshell);
         env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
             *curshell = strdup2(myshell);
+        Free_safe(myshell);
 
         *jobenv = env_list_export_envp(env_list);
 
-- 
2.43.0


From 5643adefc0a77927587ca71e894a5b26a05ccd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 02/92] fix: flush the mail header before forking the process
 which runs the job

If the job could not be executed, the grand child exited through exit(), which
wrote the inherited unflushed header a second time in the shared mail file.
---
 job.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/job.c b/job.c
index 0564bf0..1a84b97 100644
--- a/job.c
+++ b/job.c
@@ -611,6 +611,9 @@ run_job(struct exe_t *exeent)
                  * Otherwise, stdout and stderr point to /dev/null . */
                 mailf = create_mail(line, NULL, content_type, encoding, jobenv);
                 mailpos = ftell(mailf);
+                /* the grand child must not inherit unwritten data: it would
+                 * write it a second time if it exits without an exec() */
+                fflush(mailf);
                 if (pipe(pipe_fd) != 0)
                     die_e("could not pipe() (job not executed)");
             }
-- 
2.43.0


From f87ceb6a027bcf23377217cc8ad2338d1e17c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 03/92] fix: a range whose bounds are equal, such as "5-5",
 matched every value

read_field() took such a range for one that wraps around (as "22-3"), and set
all the values of the field.
---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index f6855a3..40e8e8e 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1960,7 +1960,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         if (debug_opt)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
-        if (start < stop)
+        if (start <= stop)
             for (i = start; i <= stop; i += step)
                 bit_set(ary, i);
         else {
-- 
2.43.0


From a9ce82a5869f0703f3dd225ed92aaeaa04c3ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 04/92] fix: the names of months were taken for the previous
 month

read_field() subtracts 1 from the month number to get an index from 0 to 11,
but get_num() already returned such an index when the month was given by name:
"feb" was understood as January, and "jan" set a bit before the start of the
bit string.
---
 fileconf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 40e8e8e..3d9c3b1 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1833,7 +1833,9 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         for (i = 0; names[i]; ++i)
             if (strncmp(ptr, names[i], strlen(names[i])) == 0) {
-                *num = i;
+                /* the caller expects months from 1 to 12, as they are when
+                 * they are given as numbers */
+                *num = (names == mons_ary) ? i + 1 : i;
                 ptr += strlen(names[i]);
                 return ptr;
                 break;
-- 
2.43.0


From e876729c56fb543cca90c9ed52dc45c9a687f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 05/92] fix: reject the month number 0, which wrote before the
 start of a bit string

Months go from 1 to 12: 0 gave the index -1, which was used as it was.
---
 fileconf.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 3d9c3b1..a2aaa43 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1914,11 +1914,16 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
             ptr = get_num(ptr, &start, max, 0, names);
             if (ptr == NULL)
                 return NULL;
-            if (max == 12)
+            if (max == 12) {
                 /* this number is part of the month field.
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to start */
+                if (start < 1) {
+                    need_correction = 1;
+                    return NULL;
+                }
                 start -= 1;
+            }
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1935,11 +1940,16 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                 if (ptr == NULL)
                     /* we reached the end of the string to parse */
                     return NULL;
-                if (max == 12)
+                if (max == 12) {
                     /* this number is part of the month field.
                      * user set it from 1 to 12, but we manage it internally
                      * as a number from 0 to 11 : we remove 1 to stop */
+                    if (stop < 1) {
+                        need_correction = 1;
+                        return NULL;
+                    }
                     stop -= 1;
+                }
             }
             else {
                 /* syntax error */
@@ -1981,11 +1991,16 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
             rm = 0;
             if ((ptr = get_num(ptr, &rm, max, 0, names)) == NULL)
                 return NULL;
-            if (max == 12)
+            if (max == 12) {
                 /* this number is part of the month field.
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to rm */
+                if (rm < 1) {
+                    need_correction = 1;
+                    return NULL;
+                }
                 rm -= 1;
+            }
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
-- 
2.43.0


From 0345bd4442456cb440eda2d1b355c1386cd3f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 06/92] fix: in the days field, "*/n" started counting from day
 0

"*" acts as "first-last" (fcrontab(5)), i.e. 1-31 for the days of the month,
so that "*/9" is 1,10,19,28, and not 9,18,27.
---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index a2aaa43..521e010 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1903,7 +1903,8 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
 
         if (*ptr == '*') {
             /* we have to fill everything (may be modified by a step ) */
-            start = 0;
+            /* (days of month go from 1 to 31) */
+            start = (max == 31) ? 1 : 0;
             /* user set month from 1 to 12, but we manage it internally
              * as a number from 0 to 11 */
             stop = (max == 12) ? 11 : max;
-- 
2.43.0


From 8f2fceef5ddff391b65e46224c58778621894f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 07/92] fix: dayor jobs could be scheduled on a day after the
 end of the month

The search for the next matching day went past the last day of the month
before checking that it was still in it: a day 31 was found in a month of 30
days (so that the job was run on the 1st of the next month), and a day 32 was
found depending on the next field of the structure.
---
 database.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 1762e61..5e1fc41 100644
--- a/database.c
+++ b/database.c
@@ -1169,8 +1169,9 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
             j = ftime.tm_wday;
             i = ftime.tm_mday;
-            while ((bit_test(line->cl_days, i) == 0) &&
-                   (bit_test(line->cl_dow, j) == 0)) {
+            /* (check max first: the days after the end of the month may be set) */
+            while (i > max || ((bit_test(line->cl_days, i) == 0) &&
+                               (bit_test(line->cl_dow, j) == 0))) {
                 if (i > max) {
                     ftime.tm_mon++;
                     if (has_changed < 2) {
-- 
2.43.0


From f254a4baa4466e06611572a292920dfb51c0e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 08/92] fix: jobs which finished while fcron was exiting were
 run again at startup

When it exits, fcron waits for the jobs of each file in turn, and saved only
that file afterwards. A job from another file which finished in the meantime
was still recorded as running on disk, and it was thus run once more at the
next startup ("Job did not finish").
---
 fcron.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 0be2604..3cab506 100644
--- a/fcron.c
+++ b/fcron.c
@@ -219,7 +219,8 @@ xexit(int exit_value)
             debug("waiting jobs for %s ...", f->cf_user);
             /* */
             wait_all(&f->cf_running);
-            save_file(f);
+            /* jobs from other files may have finished as well */
+            save_file(NULL);
         }
         delete_file(f->cf_user);
 
-- 
2.43.0


From 03ce170113974957138fa65ff36ba6180648f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 09/92] fix: midhourly jobs which ran in the last minute of a
 period skipped the next one

---
 database.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 5e1fc41..7f9a732 100644
--- a/database.c
+++ b/database.c
@@ -1064,6 +1064,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         time_t nextexe = 0;
         int i;
         int max;
+        int base_min;
         char has_changed = 0;
         /* to prevent from invinite loop with unvalid lines : */
         short int year_limit = MAXYEAR_SCHEDULE_TIME;
@@ -1080,6 +1081,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
         /* creates a bug on DST change on some systems ?? */
         /* ftime.tm_isdst = -1; */
 
+        base_min = ftime.tm_min;
+
         /* to prevent multiple execution of &-jobs in the same minute
          * (but not if the user has explicitely asked to run jobs immediately) */
         if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
@@ -1087,9 +1090,14 @@ set_next_exe(cl_t *line, char option, int info_fd)
             ftime.tm_sec = 0;
         }
 
-        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG)
+        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG) {
             /* %-line: go to next period */
+            if (is_freq_periodically(line->cl_option))
+                /* the minute we've just added may already be in the next period
+                 * (midhourly jobs), which we would skip */
+                ftime.tm_min = base_min;
             move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
+        }
 
  setMonth:
         for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
-- 
2.43.0


From b8ca70ca81c0e51c2fb8f27373f53d7f8cb882e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 10/92] fix: option first was ignored in the declarations ("!")
 for the following lines

---
 fileconf.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 521e010..c095ea2 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -168,6 +168,7 @@ init_default_line(cl_t *cl, cf_t *cf)
     Set(cl->cl_mailto, runas);
     Free_safe(cl->cl_tz);
     set_default_opt(cl->cl_option);
+    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
     cl->cl_file = cf;
 }
 
@@ -1484,8 +1485,6 @@ read_freq(char *ptr, cf_t *cf)
 
     cl = dups_cl(&default_line);
 
-    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
-
     /* skip the @ */
     ptr++;
 
-- 
2.43.0


From 72b4f25e0cd2405e123022f34e5023753497067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 11/92] fix: descriptors were no longer watched after the
 removal of the highest one

---
 select.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/select.c b/select.c
index e62fef0..018cc46 100644
--- a/select.c
+++ b/select.c
@@ -61,8 +61,9 @@ select_rm_read(select_instance *si, int fd)
         int i;
         for (i = fd; i >= 0; i--) {
             if (FD_ISSET(i, &si->__readfds_master))
-                si->__fd_max = i;
+                break;
         }
+        si->__fd_max = i;
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
 }
-- 
2.43.0


From 4cb054e9ed499484d87fc181d36092b44d297ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 12/92] fix: an uptime job due when fcron stopped before
 running it lost its turn

---
 database.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 7f9a732..ebddde4 100644
--- a/database.c
+++ b/database.c
@@ -1610,9 +1610,12 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             if (cl->cl_nextexe != LONG_MAX) {
                 cl->cl_nextexe += sleep_duration;
 
-                if (cl->cl_nextexe < now && context == CONTEXT_RESUME) {
+                if (cl->cl_nextexe < now
+                    && (context == CONTEXT_RESUME || cl->cl_nextexe > 0)) {
                     /* userland processes including fcron may not run for a short
                      * time before suspend, or after resume, so we can end up in this situation.
+                     * Similarly, fcron may have been stopped after the job became due but
+                     * before it could be run (e.g. before the end of the first sleep).
                      * it's not really an error though, and it's best to simply run that job now */
                     cl->cl_nextexe = now;
                 }
-- 
2.43.0


From 64708c8ee12bf783727685e062bb007d0d362e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 13/92] fix: a runatreboot job that was running when fcron
 stopped abruptly never ran again

---
 database.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index ebddde4..3b04f97 100644
--- a/database.c
+++ b/database.c
@@ -1459,11 +1459,12 @@ set_next_exe_startup(struct cl_t *cl, const int context,
      * - runatreboot has higher priority than jobs that were still running
      *   when fcron stopped, because the former will get run quicker as they are not
      *   put into the serial queue. runatreboot jobs will be handled later on. */
-    if (context != CONTEXT_RESUME && cl->cl_numexe > 0
-        && !is_runatreboot(cl->cl_option)) {
+    if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {
 
+        /* whatever the options, it is no longer running (nor queued) */
         cl->cl_numexe = 0;
-        if (is_lavg(cl->cl_option)) {
+        if (is_runatreboot(cl->cl_option)) ;
+        else if (is_lavg(cl->cl_option)) {
             if (!is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
         }
-- 
2.43.0


From f2073a4d9dda6b07fce492089ec878c75a206e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 14/92] fix: a resume from suspend postponed volatile @-lines

---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 3b04f97..64e5499 100644
--- a/database.c
+++ b/database.c
@@ -1586,7 +1586,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
             cl->cl_nextexe = now;
         }
-        else if (is_new_file || is_volatile(cl->cl_option)
+        else if (is_new_file
+                 || (context != CONTEXT_RESUME && is_volatile(cl->cl_option))
                  || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)
                                                  || is_runonce(cl->cl_option)))) {
             /* cl_first is always saved to disk for a volatile line */
-- 
2.43.0


From b3d0d2886c351dd2154fdf5c7676fd735cfd1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 15/92] fix: keep exact counts of the running serialized jobs

A job run once from the serial queue (bootrun, or unfinished when fcron
stopped) shared its serial_once flag with the other runs of its line, jobs
waited for in wait_all() or that could not be forked were never counted as
finished: the serial queue could then be blocked for ever, or exceed its limit.
---
 conf.c     | 11 +--------
 database.c | 66 ++++++++++++++++++++++++++++++------------------------
 exe_list.c |  2 +-
 exe_list.h |  2 ++
 4 files changed, 41 insertions(+), 40 deletions(-)

diff --git a/conf.c b/conf.c
index 4b09624..10d385c 100644
--- a/conf.c
+++ b/conf.c
@@ -915,16 +915,7 @@ delete_file(const char *user_name)
              e = exe_list_next(exe_list))
             if (e->e_line != NULL && e->e_line->cl_file == file) {
                 /* we set the e_line to NULL, as so we know in wait_chld()
-                 * and wait_all() the corresponding file has been removed.
-                 * Plus, we decrement serial_running and lavg_serial_running
-                 * as we won't be able to do it at the end of the job */
-                if ((is_serial(e->e_line->cl_option) ||
-                     is_serial_once(e->e_line->cl_option)) &&
-                    !is_lavg(e->e_line->cl_option))
-                    serial_running--;
-                else if (is_serial(e->e_line->cl_option) &&
-                         is_lavg(e->e_line->cl_option))
-                    lavg_serial_running--;
+                 * and wait_all() the corresponding file has been removed. */
                 e->e_line = NULL;
             }
 
diff --git a/database.c b/database.c
index 64e5499..846d67c 100644
--- a/database.c
+++ b/database.c
@@ -38,7 +38,7 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-void run_queue_job(cl_t * line);
+int run_queue_job(cl_t * line, short int *running);
 int is_loop_in_queue(void);
 
 
@@ -181,8 +181,8 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        run_queue_job(line);
-        send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        if (run_queue_job(line, NULL) == OK)
+            send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
     }
     else {
         warn_fd(info_fd,
@@ -196,10 +196,8 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    run_queue_job(l->l_line);
-
-    if (is_serial(l->l_line->cl_option))
-        lavg_serial_running++;
+    run_queue_job(l->l_line, is_serial(l->l_line->cl_option) ?
+                  &lavg_serial_running : NULL);
 
 }
 
@@ -215,10 +213,9 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        run_queue_job(serial_array[serial_array_index]);
+        run_queue_job(serial_array[serial_array_index], &serial_running);
         serial_array[serial_array_index] = NULL;
 
-        serial_running++;
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
         serial_num--;
@@ -227,26 +224,36 @@ run_serial_job(void)
 }
 
 
-void
-run_queue_job(cl_t *line)
-    /* run a job */
+int
+run_queue_job(cl_t *line, short int *running)
+    /* run a job, and include it in the counter running (if not NULL) until it ends.
+     * Return ERR if it could not be run, OK otherwise. */
 {
 
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, NULL };
 
 /*      // */
 /*      debug("run_queue_job"); */
 /*      // */
 
     e.e_line = line;
+    e.e_running = running;
 
     /* run the job */
-    if (run_job(&e) == OK) {
-        /* append job to the list of executed job */
-        exe_list_add(exe_list, &e);
-        line->cl_file->cf_running += 1;
+    if (run_job(&e) != OK) {
+        /* it is neither queued nor running any more */
+        line->cl_numexe -= 1;
+        clear_serial_once(line->cl_option);
+        return ERR;
     }
 
+    /* append job to the list of executed job */
+    exe_list_add(exe_list, &e);
+    line->cl_file->cf_running += 1;
+    if (running != NULL)
+        *running += 1;
+    return OK;
+
 }
 
 int
@@ -564,6 +571,11 @@ wait_chld(void)
              e = exe_list_next(exe_list)) {
 
             if (pid == e->e_ctrl_pid) {
+                int is_serial_job = (e->e_running == &serial_running);
+
+                if (e->e_running != NULL)
+                    *(e->e_running) -= 1;
+
                 if (e->e_line == NULL) {
                     /* the corresponding file has been removed from memory */
                     debug("Child exited: pid %d", pid);
@@ -575,23 +587,16 @@ wait_chld(void)
                     line->cl_numexe -= 1;
                     line->cl_file->cf_running -= 1;
 
-                    if (is_serial_once(line->cl_option)) {
+                    if (is_serial_job)
                         clear_serial_once(line->cl_option);
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_serial(line->cl_option)
-                             && !is_lavg(line->cl_option)) {
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_lavg(line->cl_option)
-                             && is_serial(line->cl_option))
-                        lavg_serial_running--;
                 }
 
                 exe_list_remove_cur(exe_list);
                 exe_list_end_iteration(exe_list);
+
+                /* WARNING: may add an entry to exe_list */
+                if (is_serial_job && serial_running < serial_max_running)
+                    run_serial_job();
                 break;
             }
         }
@@ -614,6 +619,9 @@ wait_all(int *counter)
         for (e = exe_list_first(exe_list); e != NULL;
              e = exe_list_next(exe_list)) {
             if (pid == e->e_ctrl_pid) {
+                if (e->e_running != NULL)
+                    *(e->e_running) -= 1;
+
                 if (e->e_line == NULL) {
                     /* the corresponding file has been removed from memory */
                     debug("Job finished: pid %d", pid);
diff --git a/exe_list.c b/exe_list.c
index 9e4ce53..a711fac 100644
--- a/exe_list.c
+++ b/exe_list.c
@@ -41,7 +41,7 @@ exe_list_init(void)
 exe_t *
 exe_list_add_line(exe_list_t *list, struct cl_t *line)
 {
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, NULL };
     e.e_line = line;            /* ANSI C does not allow us to directly replace NULL by line above */
 
     return (exe_t *) u_list_add((u_list_t *) list, (u_list_entry_t *) & e);
diff --git a/exe_list.h b/exe_list.h
index 6356bbb..d357816 100644
--- a/exe_list.h
+++ b/exe_list.h
@@ -37,6 +37,8 @@ typedef struct exe_t {
     struct cl_t *e_line;
     pid_t e_ctrl_pid;           /* pid of the fcron process controling the job */
     pid_t e_job_pid;            /* pid of the job itself */
+    short int *e_running;       /* counter of running serialized jobs in which this
+                                 * job is included, or NULL if it isn't serialized */
 } exe_t;
 
 typedef struct u_list_t exe_list_t;
-- 
2.43.0


From 1289b5a4c163bec9b553f1b8883d42262392ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 16/92] fix: the serial queue was scrambled when it grew while
 not starting at index 0

---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 846d67c..dbe613e 100644
--- a/database.c
+++ b/database.c
@@ -424,9 +424,9 @@ add_serial_job(cl_t *line, int info_fd)
                 alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
 
             /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr + serial_array_index, serial_array,
+            memcpy(ptr, serial_array + serial_array_index,
                    (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr, serial_array + (old_size - serial_array_index),
+            memcpy(ptr + (old_size - serial_array_index), serial_array,
                    (sizeof(cl_t *) * serial_array_index));
             serial_array_index = 0;
             Free_safe(serial_array);
-- 
2.43.0


From 719d2ab1546ef836f36e2f72b2e3255324af7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 17/92] fix: close the pid pipe when a job could not be forked

---
 job.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/job.c b/job.c
index 1a84b97..5828fed 100644
--- a/job.c
+++ b/job.c
@@ -560,6 +560,8 @@ run_job(struct exe_t *exeent)
     switch (pid = fork()) {
     case -1:
         error_e("Fork error : could not exec '%s'", line->cl_shell);
+        xclose_check(&(pipe_pid_fd[0]), "pipe_pid_fd[0]");
+        xclose_check(&(pipe_pid_fd[1]), "pipe_pid_fd[1]");
         return ERR;
         break;
 
-- 
2.43.0


From dc67b4cec2fd718a9ffd56168c2a1237bc404580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 18/92] fix: a runonce job run by bootrun was run again at its
 next match

---
 database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index dbe613e..465004a 100644
--- a/database.c
+++ b/database.c
@@ -1557,8 +1557,12 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                                 cl->cl_shell);
                         add_lavg_job(cl, -1);
                     }
+                    set_hasrun(cl->cl_option);
                 }
-                set_next_exe(cl, STD, -1);
+                if (!is_runonce(cl->cl_option) || !is_hasrun(cl->cl_option))
+                    set_next_exe(cl, STD, -1);
+                else
+                    job_queue_remove(cl);
             }
             else {
                 if (is_notice_notrun(cl->cl_option)) {
-- 
2.43.0


From 5778231f487a1e52924d5059213be52acd601761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 19/92] fix: a signal or a connection during the first sleep
 let jobs run before its end

---
 fcron.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fcron.c b/fcron.c
index 3cab506..51f1b47 100644
--- a/fcron.c
+++ b/fcron.c
@@ -846,6 +846,7 @@ main_loop()
     time_t save;                /* time remaining until next save */
     time_t slept_from;          /* time it was when we went into sleep */
     time_t nwt;                 /* next wake time */
+    time_t first_exe;           /* no job is executed before that time */
 #ifdef HAVE_GETTIMEOFDAY
     struct select_instance main_select;
     struct timeval now_tv;      /* we use usec field to get more precision */
@@ -877,6 +878,7 @@ main_loop()
          * during system boot time is not what we want */
         nwt = tmax(next_wake_time(save), now + first_sleep);
     }
+    first_exe = now + first_sleep;
     debug("initial wake time : %s", ctime(&nwt));
 
     for (;;) {
@@ -931,11 +933,17 @@ main_loop()
         reset_sig_cont();
         debug_print_tstamp("    after check_signal and suspend");
 
-        test_jobs();
-        debug_print_tstamp("    after test_jobs");
+        /* we may have been woken up early by a signal or by fcrondyn
+         * (and the clock may have been set back) */
+        first_exe = tmin(first_exe, now + first_sleep);
 
-        while (serial_num > 0 && serial_running < serial_max_running) {
-            run_serial_job();
+        if (now >= first_exe) {
+            test_jobs();
+            debug_print_tstamp("    after test_jobs");
+
+            while (serial_num > 0 && serial_running < serial_max_running) {
+                run_serial_job();
+            }
         }
 
         if (once) {
@@ -955,7 +963,7 @@ main_loop()
         fcrondyn_socket_check(&main_select);
 #endif
 
-        nwt = check_lavg(save);
+        nwt = (now >= first_exe) ? check_lavg(save) : first_exe;
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
-- 
2.43.0


From dd284cdb7fe4ee6cb0537c0f289d653ffcaaefe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 20/92] fix: a signal received outside of select() waited for
 the next wake up

The job queue, the serial queue and the fcrontabs were then not handled before
the next job or save (by default up to 30 min), or even not at all as the flags
were cleared after their handling.
---
 fcron.c  | 32 +++++++++++++++++++++++++-------
 select.c | 13 ++++++++++---
 select.h |  4 +++-
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/fcron.c b/fcron.c
index 51f1b47..06b53d3 100644
--- a/fcron.c
+++ b/fcron.c
@@ -780,8 +780,9 @@ check_signal()
     /* Action any received signals. */
 {
     if (sig_chld == true) {
-        wait_chld();
+        /* reset the flag first, or we could miss a signal received meanwhile */
         sig_chld = false;
+        wait_chld();
         reinstall_signal_handler(SIGCHLD, sigchld_handler);
     }
 
@@ -794,22 +795,22 @@ check_signal()
 
     if (sig_hup == true) {
         /* update configuration */
-        synchronize_dir(".", 0);
         sig_hup = false;
+        synchronize_dir(".", 0);
         reinstall_signal_handler(SIGHUP, sighup_handler);
     }
     if (sig_usr1 == true) {
         /* reload all configuration */
-        reload_all(".");
         sig_usr1 = false;
+        reload_all(".");
         reinstall_signal_handler(SIGUSR1, sigusr1_handler);
     }
 
     if (sig_usr2 == true) {
+        sig_usr2 = false;
         print_schedule();
         debug_opt = (debug_opt > 0) ? 0 : 1;
         explain("debug_opt = %d", debug_opt);
-        sig_usr2 = false;
         reinstall_signal_handler(SIGUSR2, sigusr2_handler);
     }
 
@@ -851,6 +852,8 @@ main_loop()
     struct select_instance main_select;
     struct timeval now_tv;      /* we use usec field to get more precision */
     struct timeval sleep_tv;    /* we use usec field to get more precision */
+    sigset_t handled_sigs;
+    sigset_t orig_sigs;
 #endif
 
     debug("Entering main loop");
@@ -917,7 +920,22 @@ main_loop()
         }
         debug("nwt=%s, sleep sec=%ld, usec=%ld", ctime(&nwt), sleep_tv.tv_sec,
               sleep_tv.tv_usec);
-        select_call(&main_select, &sleep_tv);
+        /* a signal received before we sleep must interrupt that sleep:
+         * let signals in during the sleep only, after a last check */
+        sigemptyset(&handled_sigs);
+        sigaddset(&handled_sigs, SIGTERM);
+        sigaddset(&handled_sigs, SIGHUP);
+        sigaddset(&handled_sigs, SIGCHLD);
+        sigaddset(&handled_sigs, SIGUSR1);
+        sigaddset(&handled_sigs, SIGUSR2);
+        sigaddset(&handled_sigs, SIGCONT);
+        sigprocmask(SIG_BLOCK, &handled_sigs, &orig_sigs);
+        if (sig_term || sig_hup || sig_chld || sig_usr1 || sig_usr2 || sig_cont) {
+            sleep_tv.tv_sec = 0;
+            sleep_tv.tv_usec = 0;
+        }
+        select_call(&main_select, &sleep_tv, &orig_sigs);
+        sigprocmask(SIG_SETMASK, &orig_sigs, NULL);
 #else                           /* HAVE_GETTIMEOFDAY */
         if (nwt - now > 0) {
             sleep(nwt - now);
@@ -963,12 +981,12 @@ main_loop()
         fcrondyn_socket_check(&main_select);
 #endif
 
+        check_signal();
+
         nwt = (now >= first_exe) ? check_lavg(save) : first_exe;
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
-        check_signal();
-
     }
 
 }
diff --git a/select.c b/select.c
index 018cc46..3574a4c 100644
--- a/select.c
+++ b/select.c
@@ -69,13 +69,20 @@ select_rm_read(select_instance *si, int fd)
 }
 
 void
-select_call(struct select_instance *si, struct timeval *timeout)
-    /* call select for instance 'si' */
+select_call(struct select_instance *si, struct timeval *timeout,
+            const sigset_t *sigmask)
+    /* call pselect for instance 'si' (sigmask: the signals blocked meanwhile) */
 {
+    struct timespec ts;
+
+    ts.tv_sec = timeout->tv_sec;
+    ts.tv_nsec = timeout->tv_usec * 1000;
+
     /* re-initialize readfds -- select() will change it */
     si->readfds = si->__readfds_master;
 
-    si->retcode = select(si->__fd_max + 1, &si->readfds, NULL, NULL, timeout);
+    si->retcode =
+        pselect(si->__fd_max + 1, &si->readfds, NULL, NULL, &ts, sigmask);
     if (si->retcode < 0 && errno != EINTR) {
         die_e("select returned %d", errno);
     }
diff --git a/select.h b/select.h
index ace522c..1714d73 100644
--- a/select.h
+++ b/select.h
@@ -28,6 +28,7 @@
 
 #include "config.h"
 
+#include <signal.h>
 #ifdef HAVE_SYS_SELECT_H
 #include <sys/select.h>
 #endif
@@ -49,6 +50,7 @@ typedef struct select_instance {
 extern void select_init(struct select_instance *si);
 extern void select_add_read(select_instance * si, int fd);
 extern void select_rm_read(select_instance * si, int fd);
-extern void select_call(struct select_instance *si, struct timeval *timeout);
+extern void select_call(struct select_instance *si, struct timeval *timeout,
+                        const sigset_t * sigmask);
 
 #endif                          /* __SELECT_H__ */
-- 
2.43.0


From 05e80caa1a379ba695a816968717bc4f5e709006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 21/92] fix: an edit made fcron forget the runs in progress or
 queued of the unchanged lines

Such a job could then be run a second time at once, and its queued run was lost.
---
 conf.c | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/conf.c b/conf.c
index 10d385c..72ad2c1 100644
--- a/conf.c
+++ b/conf.c
@@ -33,6 +33,7 @@ int add_line_to_file(cl_t * cl, cf_t * cf, uid_t runas, char *runas_str,
                      time_t t_save, int is_system_startup);
 int read_strn(int fd, char **str, short int size);
 int read_type(int fd, short int *type, short int *size);
+void keep_running_and_queued(cl_t * old_l, cl_t * new_l);
 void synchronize_file(char *file_name, int is_system_startup);
 
 
@@ -202,6 +203,49 @@ synchronize_dir(const char *dir_name, int is_system_startup)
 }
 
 
+void
+keep_running_and_queued(cl_t *old_l, cl_t *new_l)
+    /* The line old_l is about to be replaced by the same line new_l from the new
+     * version of the file: its runs in progress or queued become runs of new_l */
+{
+    exe_t *e = NULL;
+    lavg_t *l = NULL;
+    int i;
+
+    for (e = exe_list_first(exe_list); e != NULL; e = exe_list_next(exe_list))
+        if (e->e_line == old_l) {
+            e->e_line = new_l;
+            old_l->cl_numexe -= 1;
+            old_l->cl_file->cf_running -= 1;
+            new_l->cl_numexe += 1;
+            new_l->cl_file->cf_running += 1;
+        }
+
+    if (is_lavg(old_l->cl_option) && is_lavg(new_l->cl_option)) {
+        for (l = lavg_list_first(lavg_list); l != NULL;
+             l = lavg_list_next(lavg_list))
+            if (l->l_line == old_l) {
+                l->l_line = new_l;
+                old_l->cl_numexe -= 1;
+                new_l->cl_numexe += 1;
+                if (is_run_if_late(old_l->cl_option))
+                    set_run_if_late(new_l->cl_option);
+            }
+    }
+
+    if (!is_lavg(old_l->cl_option) && !is_lavg(new_l->cl_option)) {
+        for (i = 0; i < serial_array_size; i++)
+            if (serial_array[i] == old_l) {
+                serial_array[i] = new_l;
+                old_l->cl_numexe -= 1;
+                new_l->cl_numexe += 1;
+            }
+        if (is_serial_once(old_l->cl_option))
+            set_serial_once(new_l->cl_option);
+    }
+}
+
+
 void
 synchronize_file(char *file_name, int is_system_startup)
 {
@@ -277,6 +321,8 @@ synchronize_file(char *file_name, int is_system_startup)
                                 is_dayor(old_l->cl_option))
                         )) {
 
+                        keep_running_and_queued(old_l, new_l);
+
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
                             new_l->cl_remain = old_l->cl_remain;
                         /* check if there is a change about the tz diff */
-- 
2.43.0


From 2235ddf09ede3bc64e532ebe917a4c9171f90353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 22/92] fix: a serial job run by fcrondyn was only started at
 the next wake up

---
 fcron.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcron.c b/fcron.c
index 06b53d3..299e5cc 100644
--- a/fcron.c
+++ b/fcron.c
@@ -983,6 +983,12 @@ main_loop()
 
         check_signal();
 
+        /* fcrondyn may have added some serial jobs */
+        while (now >= first_exe && serial_num > 0
+               && serial_running < serial_max_running) {
+            run_serial_job();
+        }
+
         nwt = (now >= first_exe) ? check_lavg(save) : first_exe;
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
-- 
2.43.0


From e60d03c925bdf95afbfa7836939c3b65958eb085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 23/92] fix: fcrondyn cut lines of the answer at the end of its
 buffer, and could wait forever for the end of the answer

---
 fcrondyn.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index e4c712a..36276d1 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -484,6 +484,8 @@ talk_fcron(char *cmd_str, int fd)
     int cmd_len = 0;
     char buf[LINE_LEN];
     ssize_t read_len = 0;
+    char last_char = '\0';      /* last character received */
+    size_t end_str_len = 0;     /* number of '\0' received since the last text */
     char existing_connection = (fd < 0) ? 0 : 1;
     fd_set read_set;            /* needed to use select to check if some data is waiting */
     struct timeval tv;
@@ -601,23 +603,24 @@ talk_fcron(char *cmd_str, int fd)
             return ERR;
         }
         else {
-            /* ensure the string is terminated by a '\0' for when we'll printf() it */
-            buf[read_len] = '\0';
-
-            int printed_len = 0;
-            while (printed_len < read_len) {
-                int str_len = strlen(buf + printed_len);
-                printf("%s", buf + printed_len);
-                if (str_len > 0 && buf[printed_len + str_len - 1] != '\n') {
-                    printf("\n");
+            /* an answer may be received in any number of pieces: only a '\0'
+             * marks the end of a string */
+            int i;
+            for (i = 0; i < read_len; i++) {
+                if (buf[i] != '\0') {
+                    putchar(buf[i]);
+                    end_str_len = 0;
                 }
-                printed_len += str_len + 1;     /* +1 to account for the end-of-string '\0' marker */
+                else {
+                    if (last_char != '\0' && last_char != '\n')
+                        putchar('\n');
+                    end_str_len++;
+                }
+                last_char = buf[i];
             }
 
             /* check for the end of command output marker */
-            if (read_len >= sizeof(END_STR) &&
-                memcmp(&buf[read_len - sizeof(END_STR)], END_STR,
-                       sizeof(END_STR)) == 0) {
+            if (end_str_len >= sizeof(END_STR)) {
                 break;
             }
         }
-- 
2.43.0


From 7fb048eceb8524fed19f10a5e77e4976fa1fd691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 24/92] fix: the maximum number of queued jobs was ignored
 below the size of the arrays

---
 database.c | 54 ++++++++++++++++++++++++++----------------------------
 u_list.c   |  3 +++
 2 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/database.c b/database.c
index 465004a..46cf041 100644
--- a/database.c
+++ b/database.c
@@ -403,35 +403,33 @@ add_serial_job(cl_t *line, int info_fd)
     send_msg_fd_debug(info_fd, "inserting in serial queue '%s'",
                       line->cl_shell);
 
+    if (serial_num >= serial_queue_max) {
+        error_fd(info_fd, "Could not add job : serial queue is full "
+                 "(%d jobs). Consider using option serialonce, fcron's "
+                 "option -m and/or -q : '%s'", serial_queue_max,
+                 line->cl_shell);
+        if (is_notice_notrun(line->cl_option))
+            mail_notrun(line, QUEUE_FULL, NULL);
+        return;
+    }
+
     if (serial_num >= serial_array_size) {
-        if (serial_num >= serial_queue_max) {
-            error_fd(info_fd, "Could not add job : serial queue is full "
-                     "(%d jobs). Consider using option serialonce, fcron's "
-                     "option -m and/or -q : '%s'", serial_queue_max,
-                     line->cl_shell);
-            if (is_notice_notrun(line->cl_option))
-                mail_notrun(line, QUEUE_FULL, NULL);
-            return;
-        }
-        else {
-            cl_t **ptr = NULL;
-            short int old_size = serial_array_size;
-
-            debug("Resizing serial_array");
-            serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
-
-            ptr =
-                alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
-
-            /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr, serial_array + serial_array_index,
-                   (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr + (old_size - serial_array_index), serial_array,
-                   (sizeof(cl_t *) * serial_array_index));
-            serial_array_index = 0;
-            Free_safe(serial_array);
-            serial_array = ptr;
-        }
+        cl_t **ptr = NULL;
+        short int old_size = serial_array_size;
+
+        debug("Resizing serial_array");
+        serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
+
+        ptr = alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
+
+        /* copy lines in order to have the first line at the index 0 */
+        memcpy(ptr, serial_array + serial_array_index,
+               (sizeof(cl_t *) * (old_size - serial_array_index)));
+        memcpy(ptr + (old_size - serial_array_index), serial_array,
+               (sizeof(cl_t *) * serial_array_index));
+        serial_array_index = 0;
+        Free_safe(serial_array);
+        serial_array = ptr;
     }
 
     if ((i = serial_array_index + serial_num) >= serial_array_size)
diff --git a/u_list.c b/u_list.c
index 4f991ea..bcf3db0 100644
--- a/u_list.c
+++ b/u_list.c
@@ -151,6 +151,9 @@ u_list_add(u_list_t *l, u_list_entry_t *e)
     if (l == NULL || e == NULL)
         die("Invalid arguments for u_list_add(): list=%d, entry=%d", l, e);
 
+    if (l->max_entries > 0 && l->num_entries >= l->max_entries)
+        return NULL;
+
     /* Check there is some space left, or resize the array */
     if (l->num_entries >= l->array_size) {
         /* no more space: attempt to grow (the following function dies on error: */
-- 
2.43.0


From e8cae7ee578cff79b4ea3936753c866e40c85f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 25/92] fix: lavg jobs: without until, a non-strict job is not
 run at once whatever the load

---
 database.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 46cf041..a5f61c8 100644
--- a/database.c
+++ b/database.c
@@ -1810,8 +1810,7 @@ check_lavg(time_t lim)
     /* first, check if some lines must be executed because of until */
     for (l = lavg_list_first(lavg_list); l != NULL;
          l = lavg_list_next(lavg_list))
-        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)
-            && l->l_until < now) {
+        if (l->l_until > 0 && l->l_until < now) {
             if (!is_run_if_late(l->l_line->cl_option)) {
                 if (!is_nolog(l->l_line->cl_option))
                     explain("Interval of execution exceeded : '%s' (not run)",
-- 
2.43.0


From 2c5f107b1a1559ff8dd79c6af8dc12ef1031380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 26/92] fix: fcrontab must not install a truncated table after
 a read or write error

---
 fcrontab.c | 13 +++++++++++++
 fileconf.c |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index 042584e..bd1515e 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -245,6 +245,11 @@ copy_src(int from, const char *dest)
                     " Aborting : old source file kept");
             goto exiterr;
         }
+    if (nb == -1) {
+        error_e("Error while reading source file. Aborting : old source file"
+                " kept");
+        goto exiterr;
+    }
 
     xclose_check(&to_fd, dest);
 
@@ -466,6 +471,10 @@ edit_file(const char *fcron_orig)
                 goto exiterr;
             }
         }
+        if (ferror(f)) {
+            error_e("could not read file %s", fcron_orig);
+            goto exiterr;
+        }
         xfclose_check(&f, fcron_orig);
 
         if (ferror(fi))
@@ -651,6 +660,10 @@ install_stdin(void)
 
     while ((c = getc(stdin)) != EOF)
         putc(c, tmp_file);
+    if (ferror(stdin) || ferror(tmp_file)) {
+        error_e("Could not copy stdin to %s", tmp_str);
+        goto exiterr;
+    }
     /* // */
     debug("Copied stdin to %s, about to parse file %s...", tmp_str, tmp_str);
 
diff --git a/fileconf.c b/fileconf.c
index c095ea2..3ed0568 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -278,6 +278,11 @@ read_file(char *filename, int fd)
 
     }
 
+    if (ferror(file)) {
+        error_e("Could not read \"%s\"", file_name);
+        return ERR;
+    }
+
     if (entries == max_entries) {
         error("%s:%d: maximum number of entries (%d) has been reached by %s",
               file_name, line, user);
-- 
2.43.0


From c987ee87eb32685cf8e64b025dece32198af04ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 27/92] fix: fcrontab reports a failure to request the removal
 of a table

---
 fcrontab.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index bd1515e..f2fb1b4 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -283,8 +283,10 @@ remove_fcrontab(char rm_orig)
     if ((rm_orig && remove_as_user(buf, fcrontab_uid, fcrontab_gid)) != 0) {
         if (errno == ENOENT)
             return_val = ENOENT;
-        else
+        else {
             error_e("could not remove %s", buf);
+            return_val = ERR;
+        }
     }
 
     /* try to remove the temp file in case he has not
@@ -299,8 +301,10 @@ remove_fcrontab(char rm_orig)
                       O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
 
     if (fd == -1) {
-        if (errno != EEXIST)
+        if (errno != EEXIST) {
             error_e("Can't create file %s", buf);
+            return_val = ERR;
+        }
     }
     else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
         error_e("Could not fchown %s to root", buf);
@@ -334,7 +338,8 @@ write_file(int fd)
         if (file_base->cf_line_base == NULL) {
             /* no entries */
             explain("%s's fcrontab contains no entries : removed.", user);
-            remove_fcrontab(0);
+            if (remove_fcrontab(0) == ERR)
+                return_val = ERR;
         }
         else {
             /* write the binary fcrontab on disk */
@@ -1149,8 +1154,13 @@ main(int argc, char **argv)
 
     /* remove user's entries */
     if (rm_opt == 1) {
-        if (remove_fcrontab(1) == ENOENT)
+        switch (remove_fcrontab(1)) {
+        case ENOENT:
             fprintf(stderr, "no fcrontab for %s\n", user);
+            break;
+        case ERR:
+            xexit(EXIT_ERR);
+        }
         xexit(EXIT_OK);
     }
 
-- 
2.43.0


From 92737983106b8adbeb202d8bd22ea731c8007ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 28/92] fix: keep a new or removed fcrontab's request until its
 result is saved

---
 conf.c | 28 +++++++++++++++-------------
 conf.h |  2 +-
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/conf.c b/conf.c
index 72ad2c1..d5c71eb 100644
--- a/conf.c
+++ b/conf.c
@@ -134,8 +134,9 @@ synchronize_dir(const char *dir_name, int is_system_startup)
         explain("removing file %s", list_cur->str + 3);
         delete_file(list_cur->str + 3); /* len("rm.") = 3 */
         if (remove(list_cur->str + 3) != 0 && errno != ENOENT)
+            /* keep the request: we will try again */
             error_e("Could not remove %s", list_cur->str + 3);
-        if (remove(list_cur->str) != 0 && errno != ENOENT)
+        else if (remove(list_cur->str) != 0 && errno != ENOENT)
             error_e("Could not remove %s", list_cur->str);
     }
 
@@ -375,11 +376,9 @@ synchronize_file(char *file_name, int is_system_startup)
             cur_f->cf_next = file_base;
             file_base = cur_f;
 
-            /* save final file */
-            save_file(cur_f);
-
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* save final file, and delete new.user file (it is the only
+             * copy of the new version if the former failed) */
+            if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
 
         }
@@ -399,11 +398,9 @@ synchronize_file(char *file_name, int is_system_startup)
             cur_f->cf_next = file_base;
             file_base = cur_f;
 
-            /* save as a normal file */
-            save_file(cur_f);
-
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* save as a normal file, and delete new.user file (it is the
+             * only copy of the new version if the former failed) */
+            if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
         }
 
@@ -1046,13 +1043,14 @@ delete_file(const char *user_name)
 }
 
 
-void
+int
 save_file(cf_t *arg_file)
 /* Store the informations relatives to the executions
  * of tasks at a defined frequency of system's running time */
 {
     cf_t *file = NULL;
     cf_t *start_file = NULL;
+    int return_val = OK;
 
     if (arg_file != NULL)
         start_file = arg_file;
@@ -1067,10 +1065,14 @@ save_file(cf_t *arg_file)
         /* save the file safely : save it to a temporary name, then rename() it */
         /* chown the file to root:root : this file should only be read and
          * modified by fcron (not fcrontab) */
-        save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now);
+        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now)
+            != OK)
+            return_val = ERR;
 
         if (arg_file != NULL)
             /* we have to save only a single file */
             break;
     }
+
+    return return_val;
 }
diff --git a/conf.h b/conf.h
index 6036ff3..011c4c6 100644
--- a/conf.h
+++ b/conf.h
@@ -29,6 +29,6 @@
 extern void reload_all(const char *dir_name);
 extern void synchronize_dir(const char *dir_name, int is_system_startup);
 extern void delete_file(const char *user_name);
-extern void save_file(struct cf_t *file_name);
+extern int save_file(struct cf_t *file_name);
 
 #endif                          /* __CONF_H__ */
-- 
2.43.0


From 74b8bbccbae96d80a3cd10862be75adc0c4078ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 29/92] fix: a reported installation or removal of a fcrontab
 survives a power cut

---
 fcrontab.c |  2 ++
 save.c     |  2 ++
 subs.c     | 32 ++++++++++++++++++++++++++++++++
 subs.h     |  1 +
 4 files changed, 37 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index f2fb1b4..a418608 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -309,6 +309,8 @@ remove_fcrontab(char rm_orig)
     else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
         error_e("Could not fchown %s to root", buf);
     xclose_check(&fd, buf);
+    if (sync_dir_as_user(fcrontab_uid, fcrontab_gid) != 0)
+        error_e("Could not sync the directory of %s", buf);
 
     need_sig = 1;
 
diff --git a/save.c b/save.c
index 36a082e..be93b8e 100644
--- a/save.c
+++ b/save.c
@@ -401,6 +401,8 @@ save_file_safe(cf_t *file, char *final_path, char *prog_name, uid_t own_uid,
                 ERR)
                 return ERR;
         }
+        if (sync_dir_as_user(own_uid, own_gid) != 0)
+            error_e("Could not sync the directory of %s", final_path);
     }
     else {
         error("Since %s has not been able to save %s's file, it will keep "
diff --git a/subs.c b/subs.c
index 9a0a00b..215a67c 100644
--- a/subs.c
+++ b/subs.c
@@ -286,6 +286,38 @@ remove_as_user(const char *pathname, uid_t removeuid, gid_t removegid)
     return rval;
 }
 
+int
+sync_dir_as_user(uid_t syncuid, gid_t syncgid)
+/* Become user and write the changes of the current directory (e.g. a rename)
+ * to the disk, so as they survive a system crash, then revert back to who
+ * we were */
+{
+    int rval = -1;
+    int fd = -1;
+#ifdef USE_SETE_ID
+    uid_t orig_euid = geteuid();
+    gid_t orig_egid = getegid();
+
+    seteuid_safe(syncuid);
+    setegid_safe(syncgid);
+#endif                          /* def USE_SETE_ID */
+
+    fd = open(".", O_RDONLY);
+
+#ifdef USE_SETE_ID
+    seteuid_safe(orig_euid);
+    setegid_safe(orig_egid);
+#endif                          /* def USE_SETE_ID */
+
+    if (fd >= 0) {
+        rval = fsync(fd);
+        xclose_check(&fd, "current dir");
+    }
+
+    return rval;
+
+}
+
 int
 rename_as_user(const char *oldpath, const char *newpath, uid_t renameuid,
                gid_t renamegid)
diff --git a/subs.h b/subs.h
index 688c142..c82abc3 100644
--- a/subs.h
+++ b/subs.h
@@ -35,6 +35,7 @@ extern int remove_as_user(const char *pathname, uid_t removeuid,
                           gid_t removegid);
 extern int open_as_user(const char *pathname, uid_t openuid, gid_t opengid,
                         int flags, ...);
+extern int sync_dir_as_user(uid_t syncuid, gid_t syncgid);
 extern int rename_as_user(const char *oldpath, const char *newpath,
                           uid_t renameuid, gid_t renamegid);
 
-- 
2.43.0


From 36eb3e40027ad03510de9b275c266b43f73baa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 30/92] fix: message of fcronsighup lacks its argument when it
 cannot remove its file

---
 fcronsighup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcronsighup.c b/fcronsighup.c
index dc14df3..003cd5f 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -184,7 +184,7 @@ sig_daemon(void)
         fd = -1;
 
         if (remove(sigfile) < 0)
-            error_e("Could not remove %s");
+            error_e("Could not remove %s", sigfile);
     }
     else
         /* we are root, or config MAX_FCRONTAB_RELOAD_DELAY_SECONDS=0 is set */
-- 
2.43.0


From a2c675cc02c1e416ac2e43059b3ee82bbbdca7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 31/92] fix: an interrupted removal of a fcrontab must not
 bring back an older version

---
 fcrontab.c | 59 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index a418608..9ed1fa1 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -268,13 +268,36 @@ copy_src(int from, const char *dest)
 }
 
 
+int
+ask_removal(void)
+    /* create a file in order to tell the daemon a file was removed */
+{
+    int return_val = OK;
+    int fd;
+
+    snprintf(buf, sizeof(buf), "rm.%s", user);
+    fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,
+                      O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
+
+    if (fd == -1) {
+        if (errno != EEXIST) {
+            error_e("Can't create file %s", buf);
+            return_val = ERR;
+        }
+    }
+    else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
+        error_e("Could not fchown %s to root", buf);
+    xclose_check(&fd, buf);
+
+    return return_val;
+}
+
 int
 remove_fcrontab(char rm_orig)
     /* remove user's fcrontab and tell daemon to update his conf */
     /* note : the binary fcrontab is removed by fcron */
 {
     int return_val = OK;
-    int fd;
 
     if (rm_orig)
         explain("removing %s's fcrontab", user);
@@ -289,26 +312,26 @@ remove_fcrontab(char rm_orig)
         }
     }
 
-    /* try to remove the temp file in case he has not
-     * been read by fcron daemon */
-    snprintf(buf, sizeof(buf), "new.%s", user);
-    remove_as_user(buf, useruid, fcrontab_gid);
-
-    /* finally create a file in order to tell the daemon
-     * a file was removed, and launch a signal to daemon */
-    snprintf(buf, sizeof(buf), "rm.%s", user);
-    fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,
-                      O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
-
-    if (fd == -1) {
-        if (errno != EEXIST) {
-            error_e("Can't create file %s", buf);
+    /* create a file in order to tell the daemon a file was removed,
+     * and launch a signal to daemon.
+     * We must do it before we remove the temp file: if we were interrupted
+     * in between, the daemon would use the version before the temp file. */
+    if (ask_removal() != OK)
+        return_val = ERR;
+    else {
+        /* try to remove the temp file in case he has not
+         * been read by fcron daemon */
+        snprintf(buf, sizeof(buf), "new.%s", user);
+        if (remove_as_user(buf, useruid, fcrontab_gid) != 0 && errno != ENOENT) {
+            error_e("could not remove %s", buf);
             return_val = ERR;
         }
+
+        /* ask again in case the daemon has just used both files */
+        if (ask_removal() != OK)
+            return_val = ERR;
     }
-    else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
-        error_e("Could not fchown %s to root", buf);
-    xclose_check(&fd, buf);
+
     if (sync_dir_as_user(fcrontab_uid, fcrontab_gid) != 0)
         error_e("Could not sync the directory of %s", buf);
 
-- 
2.43.0


From c8bd2b09adc057d8f1f1983aaab1a794caf0b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 32/92] fix: a removal kept after an error must not remove a
 version installed after it

---
 conf.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/conf.c b/conf.c
index d5c71eb..1b91d49 100644
--- a/conf.c
+++ b/conf.c
@@ -35,6 +35,7 @@ int read_strn(int fd, char **str, short int size);
 int read_type(int fd, short int *type, short int *size);
 void keep_running_and_queued(cl_t * old_l, cl_t * new_l);
 void synchronize_file(char *file_name, int is_system_startup);
+void remove_new_file(char *file_name);
 
 
 /* this is used to create a list of files to remove, to add */
@@ -247,6 +248,24 @@ keep_running_and_queued(cl_t *old_l, cl_t *new_l)
 }
 
 
+void
+remove_new_file(char *file_name)
+    /* remove a new file which has been saved under its definitive name, unless
+     * a request to remove the former version of it could not be removed: it would
+     * remove the new version too, so we keep it to add it again afterwards */
+{
+    char rm_name[PATH_LEN];
+
+    /* len("new.") = 4 : */
+    snprintf(rm_name, sizeof(rm_name), "rm.%s", file_name + 4);
+
+    if (access(rm_name, F_OK) == 0)
+        warn("%s still exists: keeping %s", rm_name, file_name);
+    else if (remove(file_name) != 0)
+        error_e("could not remove %s", file_name);
+}
+
+
 void
 synchronize_file(char *file_name, int is_system_startup)
 {
@@ -378,8 +397,8 @@ synchronize_file(char *file_name, int is_system_startup)
 
             /* save final file, and delete new.user file (it is the only
              * copy of the new version if the former failed) */
-            if (save_file(cur_f) == OK && remove(file_name) != 0)
-                error_e("could not remove %s", file_name);
+            if (save_file(cur_f) == OK)
+                remove_new_file(file_name);
 
         }
 
@@ -400,8 +419,8 @@ synchronize_file(char *file_name, int is_system_startup)
 
             /* save as a normal file, and delete new.user file (it is the
              * only copy of the new version if the former failed) */
-            if (save_file(cur_f) == OK && remove(file_name) != 0)
-                error_e("could not remove %s", file_name);
+            if (save_file(cur_f) == OK)
+                remove_new_file(file_name);
         }
 
     }
-- 
2.43.0


From 118864b4049ddddb1fdcaaeb8969b088fcd93f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 33/92] fix: the daemon aborted at the second save after a
 write error in an environment setting

---
 save.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/save.c b/save.c
index be93b8e..266eddb 100644
--- a/save.c
+++ b/save.c
@@ -232,7 +232,14 @@ write_file_to_disk(int fd, struct cf_t *file, time_t time_date)
     /*   env variables, */
     for (env = env_list_first(file->cf_env_list);
          env != NULL; env = env_list_next(file->cf_env_list)) {
-        Save_str(fd, S_ENVVAR_T, env->e_envvar, write_buf, &write_buf_used);
+        if (save_str(fd, S_ENVVAR_T, env->e_envvar, write_buf, &write_buf_used)
+            != OK) {
+            error_e("Could not write str : file %s has not been saved.",
+                    file->cf_user);
+            /* (otherwise we could not save that file any more) */
+            env_list_end_iteration(file->cf_env_list);
+            return ERR;
+        }
     }
 
     /*   then, lines. */
-- 
2.43.0


From be0d2a0ce3b5d1a02cbef1e908c8af8ce9457182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 34/92] fix: keep the previous version of a table when a saved
 file cannot be renamed

---
 save.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/save.c b/save.c
index 266eddb..c50bfdb 100644
--- a/save.c
+++ b/save.c
@@ -398,15 +398,12 @@ save_file_safe(cf_t *file, char *final_path, char *prog_name, uid_t own_uid,
 
     if (save_one_file(file, temp_path, own_uid, own_gid, save_date) == OK) {
         if (rename_as_user(temp_path, final_path, own_uid, own_gid) != 0) {
-            error_e("Cannot rename %s to %s", temp_path, final_path);
-            error("%s will try to save the name to its definitive filename "
-                  "directly.", prog_name);
-            error
-                ("If there is an error, root may consider to replace %s (which is "
-                 "a valid copy) by %s manually.", final_path, temp_path);
-            if (save_one_file(file, final_path, own_uid, own_gid, save_date) ==
-                ERR)
-                return ERR;
+            /* don't write directly to the final path: if that failed too,
+             * we would lose the previous version */
+            error_e("Cannot rename %s to %s: keeping the previous version "
+                    "(if any) of %s", temp_path, final_path, final_path);
+            remove_as_user(temp_path, own_uid, own_gid);
+            return ERR;
         }
         if (sync_dir_as_user(own_uid, own_gid) != 0)
             error_e("Could not sync the directory of %s", final_path);
-- 
2.43.0


From 425923ee5767661a6d685448c6eb52a6919921a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 35/92] fix: a file removed or replaced just after it was
 opened is not an error

---
 subs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subs.c b/subs.c
index 215a67c..6dd7cd6 100644
--- a/subs.c
+++ b/subs.c
@@ -135,8 +135,9 @@ open_as_user(const char *pathname, uid_t openuid, gid_t opengid, int flags, ...)
                 error_e("open_as_user: could not xclose() %s", pathname);
             fd = -1;
         }
-
-        if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
+        /* (there is no link left if the file has been removed or replaced
+         * since we opened it) */
+        else if (!S_ISREG(s.st_mode) || s.st_nlink > 1) {
             error_e("open_as_user(): file %s is not a regular file", pathname);
             if (xclose(&fd) < 0)
                 error_e("open_as_user: could not xclose() %s", pathname);
@@ -219,7 +220,7 @@ open_as_user(const char *pathname, uid_t openuid, gid_t opengid, int flags, ...)
         error_e("open_as_user(): could not fstat %s", pathname);
         goto err;
     }
-    if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
+    if (!S_ISREG(s.st_mode) || s.st_nlink > 1) {
         saved_errno = errno;
         error_e("open_as_user(): file %s is not a regular file", pathname);
         goto err;
-- 
2.43.0


From 66aaab84eb28b12a8e9f8a20dad4ac46d2cdc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 36/92] fix: a signal sent to the daemon while it starts must
 not kill it

---
 fcron.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/fcron.c b/fcron.c
index 299e5cc..42f0387 100644
--- a/fcron.c
+++ b/fcron.c
@@ -706,16 +706,8 @@ main(int argc, char **argv)
 
     }
 
-    /* check if another fcron daemon is running, create pid file and lock it */
-    get_lock();
-
-    /* this program belongs to root : we set default permission mode
-     * to  600 for security reasons, but we reset them to the saved
-     * umask just before we run a job */
-    umask(066);
-
-    explain("%s[%d] " VERSION_QUOTED " started", prog_name, daemon_pid);
-
+    /* install the handlers before our pid is known: a signal sent by fcrontab,
+     * for example, must not kill us */
     install_signal_handler(SIGTERM, sigterm_handler);
     install_signal_handler(SIGHUP, sighup_handler);
     install_signal_handler(SIGCHLD, sigchld_handler);
@@ -726,6 +718,16 @@ main(int argc, char **argv)
      * write() on a pipe closed at the other end will return EPIPE */
     install_signal_handler(SIGPIPE, SIG_IGN);
 
+    /* check if another fcron daemon is running, create pid file and lock it */
+    get_lock();
+
+    /* this program belongs to root : we set default permission mode
+     * to  600 for security reasons, but we reset them to the saved
+     * umask just before we run a job */
+    umask(066);
+
+    explain("%s[%d] " VERSION_QUOTED " started", prog_name, daemon_pid);
+
     /* initialize job database */
     next_id = 0;
 
-- 
2.43.0


From cce73d55ee6f0ce2cdc70820cd4830bdaad33334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 37/92] fix: a table installed while the daemon reads the
 former one must not be lost

---
 conf.c | 64 +++++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/conf.c b/conf.c
index 1b91d49..ea2c14d 100644
--- a/conf.c
+++ b/conf.c
@@ -35,6 +35,7 @@ int read_strn(int fd, char **str, short int size);
 int read_type(int fd, short int *type, short int *size);
 void keep_running_and_queued(cl_t * old_l, cl_t * new_l);
 void synchronize_file(char *file_name, int is_system_startup);
+void claim_new_file(char *file_name);
 void remove_new_file(char *file_name);
 
 
@@ -79,6 +80,7 @@ synchronize_dir(const char *dir_name, int is_system_startup)
      * finally add new files. */
 {
 
+    char add_name[PATH_LEN];
     list_t *rm_list = NULL;
     list_t *new_list = NULL;
     list_t *file_list = NULL;
@@ -101,12 +103,19 @@ synchronize_dir(const char *dir_name, int is_system_startup)
                 list_cur->next = rm_list;
                 rm_list = list_cur;
             }
-            else if (strncmp(den->d_name, "new.", 4) == 0) {
-                /* this is a file to append to database */
-                Alloc(list_cur, list_t);
-                list_cur->str = strdup2(den->d_name);
-                list_cur->next = new_list;
-                new_list = list_cur;
+            else if (strncmp(den->d_name, "new.", 4) == 0
+                     || strncmp(den->d_name, "add.", 4) == 0) {
+                /* this is a file to append to database
+                 * (or one we began to append, see claim_new_file()) */
+                for (list_cur = new_list; list_cur; list_cur = list_cur->next)
+                    if (strcmp(list_cur->str + 4, den->d_name + 4) == 0)
+                        break;
+                if (list_cur == NULL) {
+                    Alloc(list_cur, list_t);
+                    list_cur->str = strdup2(den->d_name);
+                    list_cur->next = new_list;
+                    new_list = list_cur;
+                }
             }
             else if (strchr(den->d_name, '.') != NULL)
                 continue;
@@ -134,6 +143,9 @@ synchronize_dir(const char *dir_name, int is_system_startup)
     for (list_cur = rm_list; list_cur; list_cur = list_cur->next) {
         explain("removing file %s", list_cur->str + 3);
         delete_file(list_cur->str + 3); /* len("rm.") = 3 */
+        snprintf(add_name, sizeof(add_name), "add.%s", list_cur->str + 3);
+        if (remove(add_name) != 0 && errno != ENOENT)
+            error_e("Could not remove %s", add_name);
         if (remove(list_cur->str + 3) != 0 && errno != ENOENT)
             /* keep the request: we will try again */
             error_e("Could not remove %s", list_cur->str + 3);
@@ -167,6 +179,7 @@ synchronize_dir(const char *dir_name, int is_system_startup)
 #endif
             ) {
             explain("adding new file %s", list_cur->str + 4);
+            claim_new_file(list_cur->str);
             synchronize_file(list_cur->str, is_system_startup);
         }
         else
@@ -248,18 +261,40 @@ keep_running_and_queued(cl_t *old_l, cl_t *new_l)
 }
 
 
+void
+claim_new_file(char *file_name)
+    /* rename new.<user> to add.<user>, so as we don't remove a newer version
+     * installed by fcrontab while we are reading this one.
+     * Set file_name to the name of the file to read. */
+{
+    char name[PATH_LEN];
+
+    /* if a request to remove the former version could not be removed, it would
+     * remove the new version too (and its add.<user>): keep the request to
+     * install it as it is */
+    snprintf(name, sizeof(name), "rm.%s", file_name + 4);
+    if (access(name, F_OK) == 0) {
+        memcpy(file_name, "new.", 4);
+        return;
+    }
+
+    memcpy(file_name, "new.", 4);
+    snprintf(name, sizeof(name), "add.%s", file_name + 4);
+    if (rename(file_name, name) == 0 || errno == ENOENT)
+        memcpy(file_name, "add.", 4);
+    else
+        error_e("Could not rename %s to %s", file_name, name);
+}
+
 void
 remove_new_file(char *file_name)
-    /* remove a new file which has been saved under its definitive name, unless
-     * a request to remove the former version of it could not be removed: it would
-     * remove the new version too, so we keep it to add it again afterwards */
+    /* remove a new file which has been saved under its definitive name,
+     * unless we have to add it again (see claim_new_file()) */
 {
     char rm_name[PATH_LEN];
 
-    /* len("new.") = 4 : */
     snprintf(rm_name, sizeof(rm_name), "rm.%s", file_name + 4);
-
-    if (access(rm_name, F_OK) == 0)
+    if (strncmp(file_name, "new.", 4) == 0 && access(rm_name, F_OK) == 0)
         warn("%s still exists: keeping %s", rm_name, file_name);
     else if (remove(file_name) != 0)
         error_e("could not remove %s", file_name);
@@ -281,7 +316,7 @@ synchronize_file(char *file_name, int is_system_startup)
         cf_t *prev = NULL;
 
         /* set user name  */
-        /* we add 4 to file_name pointer because of the "new."
+        /* we add 4 to file_name pointer because of the "new." (or "add.")
          * string at the beginning of a new file */
         user = (file_name + 4);
 
@@ -540,7 +575,8 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     }
 #endif
 
-    if (strncmp(file_name, "new.", 4) == 0) {
+    if (strncmp(file_name, "new.", 4) == 0
+        || strncmp(file_name, "add.", 4) == 0) {
         if (file_stat.st_uid == rootuid) {
             /* file is owned by root : no test needed : set runas to rootuid */
             runas = rootuid;
-- 
2.43.0


From 0182e31923f602b9e5d25d6731fd5649712b9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 38/92] fix: jobs of a table which could not be fully read must
 not be run

---
 conf.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/conf.c b/conf.c
index ea2c14d..859891b 100644
--- a/conf.c
+++ b/conf.c
@@ -895,29 +895,20 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     if (ff != NULL)
         xfclose_check(&ff, file_name);
 
-    if (cl != NULL && cl->cl_next == NULL) {
-        /* line is not yet in the line list of the file : free it */
-        Free_safe(cl->cl_shell);
-        Free_safe(cl->cl_runas);
-        Free_safe(cl->cl_mailfrom);
-        Free_safe(cl->cl_mailto);
-        Free_safe(cl);
-    }
-
-    /* check if we have started to read the lines and env var */
-    if (cl != NULL) {
-        /* insert the line in the file list in order to be able to free
-         * the memory using delete_file() */
+    /* this line is not in the line list of the file (yet): free it */
+    free_line(cl);
 
+    if (cf->cf_user != NULL) {
+        /* we may have started to read the lines and env var, and to insert
+         * the lines in the queues: insert the file in the file list in order
+         * to be able to free everything using delete_file() */
         cf->cf_next = file_base;
         file_base = cf;
 
         delete_file(cf->cf_user);
-
-    }
-    else {
-        Free_safe(cf->cf_user);
     }
+    else
+        Free_safe(cf);
 
     return ERR;
 
@@ -1089,7 +1080,8 @@ delete_file(const char *user_name)
         prev_file->cf_next = file->cf_next;
 
     /* free env variables */
-    env_list_destroy(file->cf_env_list);
+    if (file->cf_env_list != NULL)
+        env_list_destroy(file->cf_env_list);
 
     /* finally free file itself */
     Free_safe(file->cf_user);
-- 
2.43.0


From d1e1daf0fdf9cf0ca97287d63d32bb008ed061d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 39/92] fix: two fcrontab of a user at the same time must not
 mix their tables

---
 fcrontab.c | 19 +++++++++----------
 save.c     | 17 +++++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 9ed1fa1..6f9d9e6 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -196,10 +196,7 @@ copy_src(int from, const char *dest)
     int nb;
     char *copy_buf[LINE_LEN];
 
-    char tmp_filename_str[PATH_LEN + 4];
-    int dest_path_len, tmp_filename_index;
-    char *tmp_suffix_str = ".tmp";
-    int max_dest_len = sizeof(tmp_filename_str) - sizeof(tmp_suffix_str);
+    char tmp_filename_str[PATH_LEN];
 
     if (from < 0) {
         die("copy_src() called with an invalid 'from' argument");
@@ -208,12 +205,13 @@ copy_src(int from, const char *dest)
     /* just in case the file was read in the past... */
     lseek(from, 0, SEEK_SET);
 
-    /* the temp file must be in the same directory as the dest file */
-    dest_path_len = strlen(dest);
-    strncpy(tmp_filename_str, dest, max_dest_len);
-    tmp_filename_index = (dest_path_len > max_dest_len) ?
-        max_dest_len : dest_path_len;
-    strcpy(&tmp_filename_str[tmp_filename_index], tmp_suffix_str);
+    /* the temp file must be in the same directory as the dest file, and
+     * must not be the one of another fcrontab running at the same time */
+    if (snprintf(tmp_filename_str, sizeof(tmp_filename_str), "%s.%d.tmp", dest,
+                 (int)getpid()) >= sizeof(tmp_filename_str)) {
+        error("file name too long: %s", dest);
+        return ERR;
+    }
 
     /* create it as fcrontab_uid (to avoid problem if user's uid changed)
      * except for root. Root requires filesystem uid root for security
@@ -264,6 +262,7 @@ copy_src(int from, const char *dest)
  exiterr:
     if (to_fd != -1)
         xclose_check(&to_fd, dest);
+    remove_as_user(tmp_filename_str, useruid, fcrontab_gid);
     return ERR;
 }
 
diff --git a/save.c b/save.c
index c50bfdb..1a35f79 100644
--- a/save.c
+++ b/save.c
@@ -386,15 +386,15 @@ save_file_safe(cf_t *file, char *final_path, char *prog_name, uid_t own_uid,
 /* save a file to a temp path, and then rename it (safely) to avoid loss of data
  * if a system crash, hardware failure, etc happens. */
 {
-    char temp_path[PATH_LEN + 4];
-    int final_path_len, temp_path_index;
-    char *tmp_str = ".tmp";
+    char temp_path[PATH_LEN];
 
-    final_path_len = strlen(final_path);
-    strncpy(temp_path, final_path, sizeof(temp_path) - sizeof(tmp_str));
-    temp_path_index = (final_path_len > sizeof(temp_path) - sizeof(tmp_str)) ?
-        sizeof(temp_path) - sizeof(tmp_str) : final_path_len;
-    strcpy(&temp_path[temp_path_index], tmp_str);
+    /* this must not be the temp file of another fcrontab running
+     * at the same time */
+    if (snprintf(temp_path, sizeof(temp_path), "%s.%d.tmp", final_path,
+                 (int)getpid()) >= sizeof(temp_path)) {
+        error("file name too long: %s", final_path);
+        return ERR;
+    }
 
     if (save_one_file(file, temp_path, own_uid, own_gid, save_date) == OK) {
         if (rename_as_user(temp_path, final_path, own_uid, own_gid) != 0) {
@@ -412,6 +412,7 @@ save_file_safe(cf_t *file, char *final_path, char *prog_name, uid_t own_uid,
         error("Since %s has not been able to save %s's file, it will keep "
               "the previous version (if any) of %s.", prog_name, final_path,
               final_path);
+        remove_as_user(temp_path, own_uid, own_gid);
         return ERR;
     }
 
-- 
2.43.0


From d4763820dd52a7aa542c588fc7a74844b827fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 40/92] fix: a daemon started as the previous one exits must
 have a valid pid file

---
 fcron.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fcron.c b/fcron.c
index 42f0387..a98e6e6 100644
--- a/fcron.c
+++ b/fcron.c
@@ -250,8 +250,10 @@ get_lock()
 {
     int otherpid = 0;
     FILE *daemon_lockfp = NULL;
+    struct stat fd_stat, file_stat;
     int fd;
 
+ again:
     if (((fd = open(pidfile, O_RDWR | O_CREAT, 0644)) == -1)
         || ((daemon_lockfp = fdopen(fd, "r+"))) == NULL)
         die_e("can't open or create %s", pidfile);
@@ -270,6 +272,17 @@ get_lock()
                   " daemon's pid", pidfile);
     }
 
+    /* the previous daemon may have removed the file as it exited, after we have
+     * opened it: our lock would not be seen by anyone */
+    if (fstat(fd, &fd_stat) != 0)
+        die_e("can't stat %s", pidfile);
+    if (stat(pidfile, &file_stat) != 0 ? errno == ENOENT :
+        (file_stat.st_ino != fd_stat.st_ino
+         || file_stat.st_dev != fd_stat.st_dev)) {
+        fclose(daemon_lockfp);
+        goto again;
+    }
+
     fcntl(fd, F_SETFD, 1);
 
     rewind(daemon_lockfp);
-- 
2.43.0


From ee3331ed382b407e3c018655f9c2905bc3b5fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 41/92] fix: a runas option must not be ignored because of an
 error elsewhere in the table

---
 fileconf.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 3ed0568..df1fd56 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1038,7 +1038,7 @@ read_opt(char *ptr, cl_t *cl)
         else if (strcmp(opt_name, "runas") == 0) {
             int len = -1;
             char *runas = NULL;
-            struct passwd *pas;
+            struct passwd *pas = NULL;
 
             if (!in_brackets) {
                 Handle_err;
@@ -1068,14 +1068,12 @@ read_opt(char *ptr, cl_t *cl)
                 need_correction = 1;
             }
 
-            if (need_correction) {
-                Free_safe(runas);
-            }
-            else {
-                /* only set cl_runas if all is well, as cl_runas MUST always
-                 * be set to a valid value */
+            /* only set cl_runas if all is well, as cl_runas MUST always
+             * be set to a valid value (note: need_correction may have been
+             * set because of something else in the file) */
+            if (pas != NULL)
                 Set(cl->cl_runas, runas);
-            }
+            Free_safe(runas);
 
             /* all good */
             if (debug_opt)
-- 
2.43.0


From 645a85822331d89c22b3f3c9a883021906bc10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 42/92] fix: jobs must not inherit the timer descriptor of the
 daemon

---
 suspend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 6ec3858..9c9834a 100644
--- a/suspend.c
+++ b/suspend.c
@@ -225,7 +225,7 @@ init_suspend(select_instance *si)
         };
 
 
-        timer_cancel_on_set_fd = timerfd_create(CLOCK_REALTIME, 0);
+        timer_cancel_on_set_fd = timerfd_create(CLOCK_REALTIME, TFD_CLOEXEC);
         if (timer_cancel_on_set_fd == -1) {
             die_e("timerfd_create");
         }
-- 
2.43.0


From 5f25f31c7d165152b745f55c62edafa0d7df5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 43/92] fix: a mail about a PAM error must not block the daemon
 nor inherit its signals

---
 job.c | 13 +++++++++++--
 job.h |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index 5828fed..0cb5956 100644
--- a/job.c
+++ b/job.c
@@ -29,7 +29,6 @@
 #include "temp_file.h"
 
 
-void sig_dfl(void);
 void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
@@ -72,6 +71,10 @@ die_mail_pame(cl_t *cl, int pamerrno, struct passwd *pas, char *str,
 
         become_user(cl, pas, "/");
 
+        /* restore umask and signals to default */
+        umask(saved_umask);
+        sig_dfl();
+
         launch_mailer(cl, mailf, envp);
         /* launch_mailer() does not return : we never get here */
     }
@@ -446,7 +449,7 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
              *   in this case ?
              * - read() on a pipe returning 0 means the pipe was closed at the other end.
              *   We shouldn't need to retry multiple times (but it should never happen) */
-            if (num_retry < 3) {
+            if (action == PIPE_WRITE && num_retry < 3) {
                 num_retry++;
                 error_e
                     ("read_write_pipe(): read/write returned 0: retrying... "
@@ -551,6 +554,12 @@ run_job(struct exe_t *exeent)
         exeent->e_job_pid = -1;
         pipe_pid_fd[0] = pipe_pid_fd[1] = -1;
     }
+    else {
+        /* a mailer must neither inherit this pipe nor keep it open, as we wait
+         * for it to be closed if the job could not be run */
+        fcntl(pipe_pid_fd[0], F_SETFD, FD_CLOEXEC);
+        fcntl(pipe_pid_fd[1], F_SETFD, FD_CLOEXEC);
+    }
 
 #ifdef CHECKRUNJOB
     debug
diff --git a/job.h b/job.h
index 3118a16..12da008 100644
--- a/job.h
+++ b/job.h
@@ -36,6 +36,7 @@ extern void change_user_setup_env(struct cl_t *cl, char ***sendmailenv,
 extern int run_job(struct exe_t *exeent);
 extern FILE *create_mail(struct cl_t *line, char *subject, char *content_type,
                          char *encoding, char **env);
+extern void sig_dfl(void);
 extern void launch_mailer(struct cl_t *line, FILE * mailf, char **env);
 
 #endif                          /* __JOB_H__ */
-- 
2.43.0


From 251022a70193d389a4d62d4edb8834321cf2aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 44/92] fix: mails about non-executions must not inherit
 signals and descriptors, and must be forgotten when done

---
 conf.c     | 2 ++
 database.c | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index 859891b..8a7fdc2 100644
--- a/conf.c
+++ b/conf.c
@@ -560,6 +560,8 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         warn_e("Could not read %s (may have just been removed)", file_name);
         goto err;
     }
+    /* a mailer started while we read it must not inherit it */
+    fcntl(fileno(ff), F_SETFD, FD_CLOEXEC);
 
     /* check if this file is owned by root : otherwise, all runas fields
      * of this file should be set to the owner */
diff --git a/database.c b/database.c
index a5f61c8..cb70dec 100644
--- a/database.c
+++ b/database.c
@@ -1688,6 +1688,7 @@ mail_notrun(cl_t *line, char context, struct tm *since)
     /* send a mail to tell user a job has not run (and why) */
 {
     int pid = 0;
+    exe_t *e = NULL;
     FILE *mailf = 0;
     struct tm *time2 = NULL, time;
     char **sendmailenv = NULL;
@@ -1709,7 +1710,9 @@ mail_notrun(cl_t *line, char context, struct tm *since)
 
         /* create an entry in exe_list */
         /* set line to NULL as this is not a line ... */
-        exe_list_add_line(exe_list, NULL);
+        e = exe_list_add_line(exe_list, NULL);
+        if (e != NULL)
+            e->e_ctrl_pid = e->e_job_pid = pid;
         return;
     }
 
@@ -1776,6 +1779,10 @@ mail_notrun(cl_t *line, char context, struct tm *since)
     /* become user (for security reasons) */
     change_user_setup_env(line, &sendmailenv, NULL, NULL, NULL, NULL, NULL);
 
+    /* restore umask and signals to default */
+    umask(saved_umask);
+    sig_dfl();
+
     /* then, send mail */
     launch_mailer(line, mailf, sendmailenv);
 
-- 
2.43.0


From 3c7939be2e88360b93f7b7be4cbb376f34521e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 45/92] fix: a setting as long as a line of a fcrontab
 overflowed the save buffer

---
 save.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/save.c b/save.c
index 1a35f79..03d26fb 100644
--- a/save.c
+++ b/save.c
@@ -73,6 +73,18 @@ save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
+
+    /* the string itself may be longer than (what remains of) the buffer */
+    while (size > WRITE_BUF_LEN - *buf_used) {
+        short int part = WRITE_BUF_LEN - *buf_used;
+
+        memcpy((write_buf + *buf_used), str, part);
+        *buf_used += part;
+        str += part;
+        size -= part;
+        if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
+            return ERR;
+    }
     memcpy((write_buf + *buf_used), str, size);
     *buf_used += size;
 
-- 
2.43.0


From 9c60e33114a808d070d36536aac90ccbd17f2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 46/92] fix: an empty output was mailed when the headers of the
 mail were longer than 32 kB

---
 job.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/job.c b/job.c
index 0cb5956..62decfb 100644
--- a/job.c
+++ b/job.c
@@ -29,7 +29,7 @@
 #include "temp_file.h"
 
 
-void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
+void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
 #ifdef HAVE_LIBPAM
@@ -588,7 +588,7 @@ run_job(struct exe_t *exeent)
             int status = 0;
             int to_stdout = foreground && is_stdout(line->cl_option);
             int pipe_fd[2];
-            short int mailpos = 0;      /* 'empty mail file' size */
+            long mailpos = 0;   /* 'empty mail file' size */
 #ifdef WITH_SELINUX
             int flask_enabled = is_selinux_enabled();
 #endif
@@ -803,7 +803,7 @@ run_job(struct exe_t *exeent)
 }
 
 void
-end_job(cl_t *line, int status, FILE *mailf, short mailpos, char **sendmailenv)
+end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **sendmailenv)
     /* if task have made some output, mail it to user */
 {
 
-- 
2.43.0


From 0ec2564f7063a4e70cc0fd3e12c9c9da3041ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 47/92] fix: the bytes of a job's output which follow a NUL
 byte were not mailed

---
 job.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/job.c b/job.c
index 62decfb..1c62c20 100644
--- a/job.c
+++ b/job.c
@@ -729,17 +729,17 @@ run_job(struct exe_t *exeent)
                 if (!to_stdout && is_mail(line->cl_option)) {
                     /* user wants a mail : we use the pipe */
                     char mailbuf[TERM_LEN];
-                    FILE *pipef = fdopen(pipe_fd[0], "r");
-
-                    if (pipef == NULL)
-                        die_e("Could not fdopen() pipe_fd[0]");
-
-                    mailbuf[sizeof(mailbuf) - 1] = '\0';
-                    while (fgets(mailbuf, sizeof(mailbuf), pipef) != NULL)
-                        if (fputs(mailbuf, mailf) < 0)
-                            warn("fputs() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
-                    /* (closes also pipe_fd[0]): */
-                    xfclose_check(&pipef, "child's pipef");
+                    ssize_t len = 0;
+
+                    /* (the output may contain any byte, including '\0') */
+                    while ((len = read(pipe_fd[0], mailbuf, sizeof(mailbuf))) > 0
+                           || (len < 0 && errno == EINTR))
+                        if (len > 0 && fwrite(mailbuf, 1, len, mailf) != len)
+                            warn("fwrite() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
+                    if (len < 0)
+                        error_e("could not read the output of job '%s'",
+                                line->cl_shell);
+                    xclose_check(&(pipe_fd[0]), "child's pipe_fd[0]");
                 }
 
 #ifdef CHECKRUNJOB
-- 
2.43.0


From 2f1f344bb86de34b2158f34558b1d4b3f89a0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 48/92] fix: an older version of a table must not be added
 again when a claim was not possible

---
 conf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conf.c b/conf.c
index 8a7fdc2..3294bbd 100644
--- a/conf.c
+++ b/conf.c
@@ -292,10 +292,16 @@ remove_new_file(char *file_name)
      * unless we have to add it again (see claim_new_file()) */
 {
     char rm_name[PATH_LEN];
+    char add_name[PATH_LEN];
 
     snprintf(rm_name, sizeof(rm_name), "rm.%s", file_name + 4);
+    snprintf(add_name, sizeof(add_name), "add.%s", file_name + 4);
     if (strncmp(file_name, "new.", 4) == 0 && access(rm_name, F_OK) == 0)
         warn("%s still exists: keeping %s", rm_name, file_name);
+    else if (strncmp(file_name, "new.", 4) == 0 && remove(add_name) != 0
+             && errno != ENOENT)
+        /* an older version: it must not be added after this one */
+        error_e("could not remove %s: keeping %s", add_name, file_name);
     else if (remove(file_name) != 0)
         error_e("could not remove %s", file_name);
 }
-- 
2.43.0


From 9c57c0c7f7f847b804ca23c49406dfa9c88be145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 49/92] fix: fcron.allow and fcron.deny which cannot be read
 entirely must not allow a user

---
 allow.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/allow.c b/allow.c
index dfe6853..08df678 100644
--- a/allow.c
+++ b/allow.c
@@ -65,6 +65,11 @@ in_file(char *str, char *file)
         }
     }
 
+    /* a file which cannot be read entirely must not be mistaken for one
+     * in which the string does not appear */
+    if (ferror(f))
+        die_e("could not read %s", file);
+
     xfclose_check(&f, file);
     /* if execution gets here, string is not in file */
     return 0;
-- 
2.43.0


From 1d699d90643399d5e0100afb7159fec3b085130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 50/92] fix: only root may list the jobs of the system table
 with fcrondyn

---
 fcrondyn_svr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2599254..6599871 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -564,8 +564,15 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             struct passwd *pass;
 
 #ifdef SYSFCRONTAB
-            if (cmd[1] == SYSFCRONTAB_UID)
+            if (cmd[1] == SYSFCRONTAB_UID) {
+                if (!is_root) {
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, SYSFCRONTAB);
+                    Send_err_msg_end(fd, err_others_nallowed_str);
+                    return;
+                }
                 user = SYSFCRONTAB;
+            }
             else {
 #endif
                 if ((pass = getpwuid((uid_t) cmd[1])) == NULL) {
-- 
2.43.0


From 161ffc8413430b8affc75f3f19b227920aa8456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 51/92] fix: a message of fcrondyn without an end must not be
 read and erased past its buffer

---
 fcrondyn_svr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 6599871..d966832 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -888,7 +888,8 @@ fcrondyn_socket_check(select_instance *si)
     int fd = -1, avoid_fd = -1;
     socklen_t addr_len = sizeof(struct sockaddr_un);
     struct sockaddr_un client_addr;
-    long int buf_int[SOCKET_MSG_LEN];
+    /* one more, so that a string in a message is always null-terminated */
+    long int buf_int[SOCKET_MSG_LEN + 1];
     int read_len = 0;
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
@@ -968,8 +969,11 @@ fcrondyn_socket_check(select_instance *si)
             continue;
         }
 
+        /* nothing must remain of the message of another client */
+        bzero(buf_int, sizeof(buf_int));
         if ((read_len =
-             recv(client->fcl_sock_fd, buf_int, sizeof(buf_int), 0)) <= 0) {
+             recv(client->fcl_sock_fd, buf_int,
+                  SOCKET_MSG_LEN * sizeof(long int), 0)) <= 0) {
             if (read_len == 0) {
                 /* connection closed by client */
                 remove_connection(&client, prev_client, si);
-- 
2.43.0


From 04e1a9dcd1f87f4489da9269b47d0acc24e3b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 52/92] fix: authentication must be refused for some time after
 too many failures

---
 fcrondyn_svr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index d966832..615042f 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -318,7 +318,6 @@ auth_client_password(struct fcrondyn_cl *client)
     if (auth_fail >= MAX_AUTH_FAIL) {
         error("Too many authentication failures : try to connect later.");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-        auth_fail = auth_nofail_since = 0;
         return;
     }
 
-- 
2.43.0


From d9da2ee5c6d64deeadbc55e68ac7547725fd6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 53/92] fix: the description of an error must not be written
 past the end of a long message

---
 log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log.c b/log.c
index f8ab322..3022894 100644
--- a/log.c
+++ b/log.c
@@ -148,6 +148,7 @@ make_msg(const char *append, char *fmt, va_list args)
     if (append != NULL) {
         size_t size_to_cat = ((MAX_MSG - len) > 0) ? (MAX_MSG - len) : 0;
         strncat(msg, ": ", size_to_cat);
+        size_to_cat = (size_to_cat > 2) ? (size_to_cat - 2) : 0;
         strncat(msg, append, size_to_cat);
         len += 2 + strlen(append);
     }
-- 
2.43.0


From 3456f5d2b2a66aa89af7423e5f44b96a90af2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 54/92] fix: fcrondyn must not drop its answer after an
 interrupted recv()

---
 fcrondyn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index 36276d1..965a7df 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -588,8 +588,10 @@ talk_fcron(char *cmd_str, int fd)
             fprintf(stderr, "read_len=%ld\n", read_len);
         }
 
-        if (errno == EINTR && debug_opt)
-            fprintf(stderr, "got EINTR ...\n");
+        if (read_len < 0) {
+            if (debug_opt)
+                fprintf(stderr, "got EINTR ...\n");
+        }
         else if (read_len > sizeof(buf)) {
             /* weird ... no data yet ? */
             if (debug_opt)
-- 
2.43.0


From 1085bf5a5d73e1dbfa4ebfb108751a3e3259e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 55/92] fix: a failed kill or renice must be answered with a
 single end marker

---
 fcrondyn_svr.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 615042f..aafcae8 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -675,7 +675,7 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
 
                 warn(err_str, client->fcl_user, cmd[1], cmd[2],
                      client->fcl_user);
-                Send_err_msg_end(fd, err_job_nfound_str);
+                Send_err_msg(fd, err_job_nfound_str);
             }
             else {
                 /* request is valid : do it */
@@ -727,7 +727,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
         || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
         warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
@@ -735,7 +735,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
     if (setpriority(PRIO_PROCESS, e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not setpriority(PRIO_PROCESS, %d, %d)",
                 e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
@@ -746,7 +746,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #else                           /* HAVE_SETPRIORITY */
     warn("System has no setpriority() : cannot renice. pid: %d nice_value: %d user: %s.", e->e_job_pid, (int)cmd[1], client->fcl_user);
-    Send_err_msg_end(fd, err_cmd_unknown_str);
+    Send_err_msg(fd, err_cmd_unknown_str);
 
 #endif                          /* HAVE_SETPRIORITY */
 }
@@ -759,14 +759,14 @@ cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
     if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
         warn("send_signal: invalid args : pid: %d signal: %d user: %s",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
     /* ok, now kill() the job */
     if (kill(e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not kill(%d, %d)", e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
-- 
2.43.0


From 035a6c9dfeb849dc512d2cbdf4b764a76f33bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 56/92] fix: idle and unauthenticated connections must be
 closed in time even when nothing else happens

---
 fcron.c        |  3 +++
 fcrondyn_svr.c | 19 ++++++++++++++++++-
 fcrondyn_svr.h |  1 +
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index a98e6e6..d37fd4d 100644
--- a/fcron.c
+++ b/fcron.c
@@ -1005,6 +1005,9 @@ main_loop()
         }
 
         nwt = (now >= first_exe) ? check_lavg(save) : first_exe;
+#if defined(FCRONDYN) && defined(HAVE_GETTIMEOFDAY)
+        nwt = fcrondyn_socket_timeout(nwt);
+#endif
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index aafcae8..f2164f7 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -880,6 +880,21 @@ and make client points to the next entry */
     fcrondyn_cl_num -= 1;
 }
 
+time_t
+fcrondyn_socket_timeout(time_t lim)
+    /* return the time at which the next idle connection must be closed,
+     * but not more than lim */
+{
+    struct fcrondyn_cl *client = NULL;
+
+    for (client = fcrondyn_cl_base; client != NULL; client = client->fcl_next)
+        lim = tmin(lim, client->fcl_idle_since + 1 +
+                   ((client->fcl_user == NULL) ? MAX_AUTH_TIME :
+                    MAX_IDLE_TIME));
+
+    return lim;
+}
+
 void
 fcrondyn_socket_check(select_instance *si)
     /* check for new connection, command, connection closed */
@@ -892,7 +907,7 @@ fcrondyn_socket_check(select_instance *si)
     int read_len = 0;
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
-    if (si->retcode <= 0)
+    if (si->retcode < 0)
         /* no socket to check : go directly to the end of that function */
         return;
 
@@ -948,6 +963,8 @@ fcrondyn_socket_check(select_instance *si)
     while (client != NULL) {
         if (!FD_ISSET(client->fcl_sock_fd, &si->readfds)
             || client->fcl_sock_fd == avoid_fd) {
+            /* the clock may have been set back */
+            client->fcl_idle_since = tmin(client->fcl_idle_since, now);
             /* check if the connection has not been idle for too long ... */
             if (client->fcl_user == NULL
                 && now - client->fcl_idle_since > MAX_AUTH_TIME) {
diff --git a/fcrondyn_svr.h b/fcrondyn_svr.h
index 5d2e1dc..a60d9ab 100644
--- a/fcrondyn_svr.h
+++ b/fcrondyn_svr.h
@@ -37,6 +37,7 @@
 /* functions prototypes */
 extern void fcrondyn_socket_init(select_instance * si);
 extern void fcrondyn_socket_check(select_instance * si);
+extern time_t fcrondyn_socket_timeout(time_t lim);
 extern void fcrondyn_socket_close(select_instance * si);
 
 /* struct used by fcron : */
-- 
2.43.0


From 44f36934a20fd3b0a5781a6b6bead1717aea487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 57/92] fix: limit the number of connections of fcrondyn to
 MAX_CONNECTION

---
 fcrondyn_svr.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index f2164f7..732d4ef 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -35,6 +35,7 @@
 
 void remove_connection(struct fcrondyn_cl **client,
                        struct fcrondyn_cl *prev_client, select_instance * si);
+void close_most_idle(select_instance * si);
 void exe_cmd(struct fcrondyn_cl *client);
 #ifdef SO_PEERCRED              /* linux */
 void auth_client_so_peercred(struct fcrondyn_cl *client);
@@ -880,6 +881,35 @@ and make client points to the next entry */
     fcrondyn_cl_num -= 1;
 }
 
+void
+close_most_idle(select_instance *si)
+    /* close the connection which has been idle for the longest time,
+     * to make room for a new one */
+{
+    struct fcrondyn_cl *client = NULL, *prev = NULL;
+    struct fcrondyn_cl *idle = NULL, *prev_idle = NULL;
+    int idle_cmd = 0, cmd = 0;
+
+    for (client = fcrondyn_cl_base; client != NULL;
+         prev = client, client = client->fcl_next) {
+        /* rather keep a client whose command is about to be read */
+        cmd = FD_ISSET(client->fcl_sock_fd, &si->readfds) ? 1 : 0;
+        if (idle == NULL || cmd < idle_cmd
+            || (cmd == idle_cmd
+                && client->fcl_idle_since <= idle->fcl_idle_since)) {
+            idle = client;
+            prev_idle = prev;
+            idle_cmd = cmd;
+        }
+    }
+
+    if (idle != NULL) {
+        warn("More than %d connections : closing the most idle one.",
+             MAX_CONNECTION);
+        remove_connection(&idle, prev_idle, si);
+    }
+}
+
 time_t
 fcrondyn_socket_timeout(time_t lim)
     /* return the time at which the next idle connection must be closed,
@@ -931,6 +961,9 @@ fcrondyn_socket_check(select_instance *si)
                 xclose_check(&fd, "client fd");
             }
             else {
+                if (fcrondyn_cl_num >= MAX_CONNECTION)
+                    close_most_idle(si);
+
                 Alloc(client, fcrondyn_cl);
                 client->fcl_sock_fd = fd;
                 /* means : not authenticated yet : */
-- 
2.43.0


From ce18ecbe1406953134a3b9b00c85cab214536df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 58/92] fix: the lock of a killed daemon must not be kept by
 its children waiting for jobs

The children of the daemon keep the locked file open while their job runs:
once the daemon had been killed, no new one could start until then.
---
 fcron.c | 2 ++
 fcron.h | 1 +
 job.c   | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/fcron.c b/fcron.c
index d37fd4d..2a6da22 100644
--- a/fcron.c
+++ b/fcron.c
@@ -64,6 +64,7 @@ char foreground = 1;            /* set to 1 when we are on foreground, else 0 */
 char foreground = 0;            /* set to 1 when we are on foreground, else 0 */
 #endif
 
+int lock_fd = -1;               /* keeps the pid file locked */
 time_t first_sleep = FIRST_SLEEP;
 const time_t min_sleep_usec = 1000;     /* 1ms -- we won't sleep for less than this time */
 time_t save_time = SAVE;
@@ -284,6 +285,7 @@ get_lock()
     }
 
     fcntl(fd, F_SETFD, 1);
+    lock_fd = fd;
 
     rewind(daemon_lockfp);
     fprintf(daemon_lockfp, "%d\n", (int)daemon_pid);
diff --git a/fcron.h b/fcron.h
index 6f06c53..83449b9 100644
--- a/fcron.h
+++ b/fcron.h
@@ -65,6 +65,7 @@
 extern time_t now;
 extern char foreground;
 extern char default_mail_charset[TERM_LEN];
+extern int lock_fd;
 extern time_t first_sleep;
 extern char *cdir;
 extern pid_t daemon_pid;
diff --git a/job.c b/job.c
index 1c62c20..ff0cc3b 100644
--- a/job.c
+++ b/job.c
@@ -593,6 +593,9 @@ run_job(struct exe_t *exeent)
             int flask_enabled = is_selinux_enabled();
 #endif
 
+            /* the lock must not outlive the daemon */
+            close(lock_fd);
+
             /* // */
             debug("run_job(): child: %s, output to %s, %s, %s\n",
                   is_mail(line->cl_option) ? "mail" : "no mail",
-- 
2.43.0


From 1279372d981d2eccaf3ccd475f3b864782d0ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 59/92] fix: the end of a never ending interval of execution
 was read from uninitialised memory

A user's line such as '% * * * * *', run twice with fcrondyn runnow, made the
daemon read invalid memory.
---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index cb70dec..56648cb 100644
--- a/database.c
+++ b/database.c
@@ -1007,7 +1007,8 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
 
     }
 
-    if (timet_ftime > timet_next_period) {
+    if (is_freq_periodically(line->cl_option)
+        && timet_ftime > timet_next_period) {
         /* the end of the interval if after the end of the period:
          * we don't want to go in the next period, so we return
          * the value of the end of the period. */
-- 
2.43.0


From 0547bbe0fbae04ca2fe9b4b1cfd5b99552ce34e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 60/92] fix: with -o, jobs which wait in the serial or lavg
 queues must be run before fcron exits

---
 fcron.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fcron.c b/fcron.c
index 2a6da22..4526157 100644
--- a/fcron.c
+++ b/fcron.c
@@ -982,6 +982,15 @@ main_loop()
         }
 
         if (once) {
+            /* the jobs which wait in the queues have to be run now too */
+            check_lavg(save);
+            while (serial_num > 0 && !sig_term) {
+                sleep(1);
+                wait_chld();
+                while (serial_num > 0 && serial_running < serial_max_running) {
+                    run_serial_job();
+                }
+            }
             explain("Running with option once : exiting ... ");
             xexit(EXIT_OK);
         }
-- 
2.43.0


From 71364cb5511f0f4692fb232614947cdd069b938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 61/92] fix: a field of a damaged table must not be read past
 the end of the variable it is read in

---
 conf.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/conf.c b/conf.c
index 3294bbd..7f4322f 100644
--- a/conf.c
+++ b/conf.c
@@ -33,6 +33,7 @@ int add_line_to_file(cl_t * cl, cf_t * cf, uid_t runas, char *runas_str,
                      time_t t_save, int is_system_startup);
 int read_strn(int fd, char **str, short int size);
 int read_type(int fd, short int *type, short int *size);
+int read_field(int fd, void *to, short int size, size_t to_size);
 void keep_running_and_queued(cl_t * old_l, cl_t * new_l);
 void synchronize_file(char *file_name, int is_system_startup);
 void claim_new_file(char *file_name);
@@ -489,6 +490,11 @@ int
 read_strn(int fd, char **str, short int size)
 /* read a "size"-length string in a binary fcrontab file */
 {
+    *str = NULL;
+    if (size < 0)
+        /* the file is damaged */
+        goto err;
+
     if ((*str = calloc(size + 1, sizeof(char))) == NULL)
         goto err;
 
@@ -520,11 +526,27 @@ read_type(int fd, short int *type, short int *size)
 }
 
 
+int
+read_field(int fd, void *to, short int size, size_t to_size)
+/* read a field of "size" bytes in a binary fcrontab file, in a variable which
+ * can hold "to_size" bytes */
+{
+    if (size < 0 || (size_t) size > to_size)
+        /* the file is damaged */
+        return ERR;
+
+    if (read(fd, to, size) < size)
+        return ERR;
+
+    return OK;
+}
+
+
 /* macros for read_file() */
 /* read "size" bytes from file "ff", put them in "to", and check for errors */
 #define Read(TO, SIZE, ERR_STR) \
         { \
-          if ( read(fileno(ff), &(TO), SIZE) < SIZE ) { \
+          if ( read_field(fileno(ff), &(TO), SIZE, sizeof(TO)) != OK ) { \
             error_e(ERR_STR); \
 	    goto err; \
 	  } \
@@ -532,6 +554,7 @@ read_type(int fd, short int *type, short int *size)
 
 #define Read_strn(TO, SIZE, ERR_STR) \
         { \
+          Free_safe(TO); \
           if ( read_strn(fileno(ff), &(TO), SIZE) != OK ) { \
             error_e(ERR_STR); \
 	    goto err; \
@@ -684,7 +707,8 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
      * a file using a depreciated format generated by an old fcrontab,
      * if the syntax has changed */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_HEADER_T ||
-        read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION) {
+        read_field(fileno(ff), &bufi, size, sizeof(bufi)) != OK
+        || bufi != S_FILEVERSION) {
         error("File %s is not valid: ignored.", file_name);
         error("This file may have been generated by an old version of fcron.");
         error("In that case, you should try to use the converter given in the "
@@ -714,7 +738,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_TIMEDATE_T
-        || read(fileno(ff), &t_save, size) < size) {
+        || read_field(fileno(ff), &t_save, size, sizeof(t_save)) != OK) {
         error("could not get time and date of saving");
         goto err;
     }
@@ -728,6 +752,9 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     Alloc(cl, cl_t);
     /* main loop : read env variables, and lines */
     while (read_type(fileno(ff), &type, &size) == OK) {
+
+        bufi = 0;
+
         /* action is determined by the type of the field */
         switch (type) {
 
-- 
2.43.0


From 2bae89bb41e270f936b7bbb4aac5f8c5e598c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 62/92] fix: a damaged file must not be loaded and saved as the
 table of another user

---
 conf.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 7f4322f..1d9c286 100644
--- a/conf.c
+++ b/conf.c
@@ -732,7 +732,15 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         /* free the value obtained by read_strn() (we need to read it anyway
          * to set the file ptr to the next thing to read) */
         Free_safe(cf->cf_user);
-        cf->cf_user = runas_str;
+        cf->cf_user = strdup2(runas_str);
+    }
+    /* the file must not be loaded (and saved) as the table of another user */
+    else if (strcmp(cf->cf_user, (strncmp(file_name, "new.", 4) == 0
+                                  || strncmp(file_name, "add.", 4) == 0) ?
+                    file_name + 4 : file_name) != 0) {
+        error("File %s contains the fcrontab of user %s: ignored.", file_name,
+              cf->cf_user);
+        goto err;
     }
 
     /* get the time & date of the saving */
@@ -915,7 +923,8 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     }
 
     /* free last cl Alloc : unused */
-    Free_safe(cl);
+    free_line(cl);
+    Free_safe(runas_str);
 
     /* check for an error */
     if (ferror(ff) != 0)
@@ -932,6 +941,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
 
     /* this line is not in the line list of the file (yet): free it */
     free_line(cl);
+    Free_safe(runas_str);
 
     if (cf->cf_user != NULL) {
         /* we may have started to read the lines and env var, and to insert
-- 
2.43.0


From 1e65a8ca5ffb0decebdba105c825827a20c05c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 63/92] fix: what follows an unknown field of a table was lost

---
 conf.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/conf.c b/conf.c
index 1d9c286..fa16187 100644
--- a/conf.c
+++ b/conf.c
@@ -902,6 +902,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
                 (cl, cf, runas, runas_str, t_save, is_system_startup) != 0)
                 free_line(cl);
             Alloc(cl, cl_t);
+            has_read_cl_first = 0;
             break;
 
             /* default case in "switch(type)" */
@@ -910,14 +911,15 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
                   file_name, type);
             free_line(cl);
             Alloc(cl, cl_t);
+            has_read_cl_first = 0;
             /* skip the data corresponding to the unknown field */
             {
-                /* we avoid using fseek(), as it seems not to work correctly
-                 * on some systems when we use read() on the FILE stream */
-                int i;
-                for (i = 0; i < size; i++)
-                    if (getc(ff) == EOF)
-                        goto err;
+                /* we must not use stdio here, as we use read() on the
+                 * FILE stream */
+                char *skipped = NULL;
+
+                Read_strn(skipped, size, "Error while skipping unknown field");
+                Free_safe(skipped);
             }
         }
     }
-- 
2.43.0


From 7bf685bad918da15ea25450ec6c243b9b3eeb325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 64/92] fix: times far out of range in a table made the daemon
 crash or loop

---
 conf.c     | 21 ++++++++++++++++++++-
 database.c | 12 +++++++++---
 fileconf.c |  9 +++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/conf.c b/conf.c
index fa16187..0add361 100644
--- a/conf.c
+++ b/conf.c
@@ -967,7 +967,12 @@ add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *runas_str,
                  time_t t_save, int is_system_startup)
     /* check if the line is valid, and if yes, add it to the file cf */
 {
-    time_t sleep_duration = now - t_save;
+    time_t sleep_duration = 0;
+
+    if (t_save < 0 || t_save > TIME_T_MAX)
+        /* damaged file: we don't know when it was saved */
+        t_save = now;
+    sleep_duration = now - t_save;
 
     if (cl->cl_shell == NULL || cl->cl_runas == NULL || cl->cl_mailto == NULL) {
         error("Line is not valid (empty shell, runas or mailto field)"
@@ -1012,6 +1017,20 @@ add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *runas_str,
         cl->cl_timefreq = 3600 * 24;
     }
 
+    /* times which are far out of range would result in overflows */
+    if (cl->cl_nextexe < 0)
+        cl->cl_nextexe = 0;
+    if (cl->cl_nextexe > TIME_T_MAX)
+        cl->cl_nextexe = TIME_T_MAX;
+    if (cl->cl_first < 0)
+        cl->cl_first = 0;
+    if (cl->cl_first > TIME_T_MAX && cl->cl_first != LONG_MAX)
+        cl->cl_first = TIME_T_MAX;
+    if (cl->cl_timefreq > TIME_T_MAX && cl->cl_timefreq != LONG_MAX)
+        cl->cl_timefreq = TIME_T_MAX;
+    if (cl->cl_until > TIME_T_MAX)
+        cl->cl_until = TIME_T_MAX;
+
     set_next_exe_startup(cl, is_system_startup ? CONTEXT_BOOT : CONTEXT_DEFAULT,
                          sleep_duration);
 
diff --git a/database.c b/database.c
index 56648cb..609d572 100644
--- a/database.c
+++ b/database.c
@@ -778,7 +778,8 @@ goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
                          * so as we don't return a time in the past */
                         ftime->tm_min++;
                         warn("Line %s doesn't seem correct: consider "
-                             "reinstalling the corresponding fcrontab");
+                             "reinstalling the corresponding fcrontab",
+                             line->cl_shell);
                     }
                 }
             }
@@ -1333,6 +1334,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
         else {
             line->cl_nextexe = basetime + line->cl_timefreq;
+            if (line->cl_nextexe > TIME_T_MAX)
+                line->cl_nextexe = TIME_T_MAX;
             if (line->cl_nextexe <= basetime) {
                 /* either there was an integer overflow, or the slept time is incorrect
                  * (e.g. fcron didn't shut down cleanly and the fcrontab wasn't saved correctly) */
@@ -1620,8 +1623,10 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             }
         }
         else {
-            if (cl->cl_nextexe != LONG_MAX) {
+            if (cl->cl_nextexe < TIME_T_MAX) {
                 cl->cl_nextexe += sleep_duration;
+                if (cl->cl_nextexe > TIME_T_MAX)
+                    cl->cl_nextexe = TIME_T_MAX;
 
                 if (cl->cl_nextexe < now
                     && (context == CONTEXT_RESUME || cl->cl_nextexe > 0)) {
@@ -1642,7 +1647,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                          cl->cl_shell, now, cl->cl_timefreq, cl->cl_nextexe);
                     error
                         ("Setting cl_nextexe to now+cl_timefreq to prevent an infinite loop.");
-                    cl->cl_nextexe = now + cl->cl_timefreq;
+                    cl->cl_nextexe = (cl->cl_timefreq < TIME_T_MAX - now) ?
+                        now + cl->cl_timefreq : TIME_T_MAX;
                     error("next execution will now be at %ld.", cl->cl_nextexe);
                 }
             }
diff --git a/fileconf.c b/fileconf.c
index df1fd56..c406ba3 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1237,6 +1237,11 @@ get_time(char *ptr, time_t *time, int zero_allowed)
             sum *= 10;
             sum += *ptr - 48;
             ptr++;
+            if (sum > TIME_T_MAX) {
+                /* this can only be an error, and would result in overflows */
+                need_correction = 1;
+                return NULL;
+            }
         }
 
         /* interpret multipliers */
@@ -1263,6 +1268,10 @@ get_time(char *ptr, time_t *time, int zero_allowed)
         }
 
         *time += sum;
+        if (*time > TIME_T_MAX) {
+            need_correction = 1;
+            return NULL;
+        }
 
     }
 
-- 
2.43.0


From cbd8cce9563ac67eff12cddcde4635c0ee4fae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 65/92] fix: some messages were formatted with missing or wrong
 arguments

---
 database.c     | 6 ++++--
 fcrondyn_svr.c | 2 +-
 fcrontab.c     | 6 +++---
 fileconf.c     | 4 ++--
 suspend.c      | 3 ++-
 5 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/database.c b/database.c
index 609d572..53b655d 100644
--- a/database.c
+++ b/database.c
@@ -1313,7 +1313,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
         if (line->cl_nextexe <= now) {
             error("BUG ??? Fcron thinks the next exe time of '%s' is %ld, "
                   "hence before now (%ld). To avoid infinite loop, nextexe"
-                  " will be set at now+5s.", line->cl_shell, line->cl_nextexe);
+                  " will be set at now+5s.", line->cl_shell, line->cl_nextexe,
+                  now);
             line->cl_nextexe = now + 5;
         }
 
@@ -1780,7 +1781,8 @@ mail_notrun(cl_t *line, char context, struct tm *since)
         fprintf(mailf, "Note that job '%s' has not run.\n", line->cl_shell);
         break;
     default:
-        error("mail_notrun() called with unkown context '%c'. Ignoring.");
+        error("mail_notrun() called with unkown context '%c'. Ignoring.",
+              context);
     }
 
     /* become user (for security reasons) */
diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 732d4ef..e56cebd 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -581,7 +581,7 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                     return;
                 }
                 if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0) {
-                    warn_e("%s is not allowed to see %s's jobs. %ld",
+                    warn_e("%s is not allowed to see %s's jobs.",
                            client->fcl_user, pass->pw_name);
                     Send_err_msg_end(fd, err_others_nallowed_str);
                     return;
diff --git a/fcrontab.c b/fcrontab.c
index 6f9d9e6..c32cb0b 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -507,12 +507,12 @@ edit_file(const char *fcron_orig)
         xfclose_check(&f, fcron_orig);
 
         if (ferror(fi))
-            error_e("Error while writing new fcrontab to %s");
+            error_e("Error while writing new fcrontab to %s", tmp_str);
     }
 
     /* Don't close fi, because we still need the file descriptor 'file' */
     if (fflush(fi) != 0)
-        die_e("Could not fflush(%s)", fi);
+        die_e("Could not fflush(%s)", tmp_str);
     fi = NULL;
 
     do {
@@ -698,7 +698,7 @@ install_stdin(void)
 
     /* don't closes tmp_fd as it will be used for make_file(): */
     if (fflush(tmp_file) != 0)
-        die_e("Could not fflush(%s)", tmp_file);
+        die_e("Could not fflush(%s)", tmp_str);
 
     if (make_file(tmp_str, tmp_fd) == ERR)
         goto exiterr;
diff --git a/fileconf.c b/fileconf.c
index c406ba3..cbb1e52 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -285,12 +285,12 @@ read_file(char *filename, int fd)
 
     if (entries == max_entries) {
         error("%s:%d: maximum number of entries (%d) has been reached by %s",
-              file_name, line, user);
+              file_name, line, max_entries, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
     }
     else if (line == max_lines)
         error("%s:%d: maximum number of lines (%d) has been reached by %s",
-              file_name, line, user);
+              file_name, line, max_lines, user);
 
     cf->cf_next = file_base;
     file_base = cf;
diff --git a/suspend.c b/suspend.c
index 9c9834a..dcc1da5 100644
--- a/suspend.c
+++ b/suspend.c
@@ -174,7 +174,8 @@ read_suspend_duration(time_t slept_from)
         goto unlink_cleanup_return;
     }
     else if (suspend_duration < 0) {
-        warn("Read negative suspend_duration (%ld): ignoring.");
+        warn("Read negative suspend_duration (%ld): ignoring.",
+             suspend_duration);
         suspend_duration = 0;
         goto unlink_cleanup_return;
     }
-- 
2.43.0


From 8e4505482ef14b46df13233002c0e930ce8b31bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 66/92] fix: reads and writes out of bounds on empty strings,
 long words and long display names

---
 fileconf.c |  6 +++---
 mail.c     |  4 ++--
 subs.c     | 13 +++----------
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index cbb1e52..86361bd 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -84,7 +84,7 @@ get_string(char *ptr)
     length = remove_blanks(ptr);
 
     if (quote != 0) {
-        if (*(ptr + length - 1) == quote)
+        if (length > 0 && *(ptr + length - 1) == quote)
             *(ptr + length - 1) = '\0';
         else {
             /* mismatched quotes */
@@ -324,7 +324,7 @@ read_env(char *ptr, cf_t *cf)
 
     /* copy env variable's name */
     while ((isalnum((int)*ptr) || *ptr == '_') && *ptr != '='
-           && !isspace((int)*ptr) && j < sizeof(name)) {
+           && !isspace((int)*ptr) && j < sizeof(name) - 1) {
         name[j++] = *ptr;
         ptr++;
     }
@@ -539,7 +539,7 @@ read_opt(char *ptr, cl_t *cl)
         i = 0;
         bzero(opt_name, sizeof(opt_name));
 
-        while (isalnum((int)*ptr) && i < sizeof(opt_name))
+        while (isalnum((int)*ptr) && i < sizeof(opt_name) - 1)
             opt_name[i++] = *ptr++;
 
         i = 1;
diff --git a/mail.c b/mail.c
index 1d4e423..9abeafd 100644
--- a/mail.c
+++ b/mail.c
@@ -52,13 +52,13 @@ format_maildisplayname(char *displayname_conf)
         c = *ipos;
         if (strchr(SPECIAL_MBOX_CHARS, c)) {
             /* insert escape */
-            if (c == DQUOTE) {
+            if (c == DQUOTE && cwritten < buf_len - 1) {
                 output[cwritten] = BSLASH;
                 cwritten++;
             }
             need_quotes = true;
         }
-        if (cwritten >= buf_len) {
+        if (cwritten >= buf_len - 1) {
             error("Formatted 'displayname' exceeds %u chars", buf_len);
             Free_safe(output);
             return NULL;
diff --git a/subs.c b/subs.c
index 6dd7cd6..7bc03bb 100644
--- a/subs.c
+++ b/subs.c
@@ -357,18 +357,11 @@ remove_blanks(char *str)
         c++;
 
     /* scan backward to the first character that is not a space */
-    do {
+    while (c > str && isspace((int)*(c - 1)))
         c--;
-    }
-    while (c >= str && isspace((int)*c));
 
-    /* if last char is a '\n', we remove it */
-    if (*c == '\n')
-        *c = '\0';
-    else
-        /* one character beyond where we stopped above is where the null
-         * goes. */
-        *++c = '\0';
+    /* this is where the null goes. */
+    *c = '\0';
 
     /* return the new length */
     return (c - str);
-- 
2.43.0


From 6b434b783d9455f5c0303a1c70aa24afbb8d1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 67/92] fix: after a partial read of a pipe, more than the rest
 was read past the end of the variable

---
 job.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index ff0cc3b..37e8b4b 100644
--- a/job.c
+++ b/job.c
@@ -424,10 +424,11 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
     while (size_processed < size) {
         errno = 0;
         if (action == PIPE_READ) {
-            ret = read(fd, (char *)buf + size_processed, size);
+            ret = read(fd, (char *)buf + size_processed, size - size_processed);
         }
         else if (action == PIPE_WRITE) {
-            ret = write(fd, (char *)buf + size_processed, size);
+            ret =
+                write(fd, (char *)buf + size_processed, size - size_processed);
         }
         else {
             error("Invalid action parameter for function read_write_pipe():"
-- 
2.43.0


From 4e4eaaf8a21055d6fecb1a6a626a18fdb5a9ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 68/92] fix: fcrontab -e looped for ever when its standard
 input was at its end

---
 fcrontab.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index c32cb0b..4fc0b01 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -611,9 +611,13 @@ edit_file(const char *fcron_orig)
             case 2:
                 fprintf(stderr, "\nFile contains some errors. "
                         "Ignore [i] or Correct [c] ? ");
-                while ((c = getchar())) {
+                while (1) {
+                    int rest;
+
+                    c = rest = getchar();
                     /* consume the rest of the line, e.g. the newline char (\n) */
-                    while (c != '\n' && (getchar() != '\n')) ;
+                    while (rest != '\n' && rest != EOF)
+                        rest = getchar();
 
                     if (c == 'i') {
                         break;
@@ -624,6 +628,11 @@ edit_file(const char *fcron_orig)
                         correction = 1;
                         break;
                     }
+                    else if (c == EOF) {
+                        fprintf(stderr,
+                                "\nNo answer: fcrontab is unchanged.\n");
+                        goto exiterr;
+                    }
                     else {
                         fprintf(stderr,
                                 "Please press c to correct, "
-- 
2.43.0


From 3f187457df42e4f7354e0e49f2e5b36c703ef927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 69/92] fix: the end of the line was skipped after a number
 ended by a dot

---
 fileconf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 86361bd..d0f1758 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1861,8 +1861,14 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         while (isdigit((int)*ptr) || *ptr == '.') {
 
-            if (*ptr == '.' && ptr++ && i++ > 0)
-                return NULL;
+            if (*ptr == '.') {
+                ptr++;
+                if (i++ > 0 || !isdigit((int)*ptr)) {
+                    /* two dots, or no digit after it */
+                    need_correction = 1;
+                    return NULL;
+                }
+            }
             if (i > 0 && --decimal < 0) {
                 /* the decimal number is exceeded : we round off,
                  * skip the other decimals and return */
-- 
2.43.0


From ce15fef3414ca3ad3c7b275aaf5107ebc9b11bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 70/92] fix: a line of fcron.conf without a name was not
 ignored

---
 fcronconf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcronconf.c b/fcronconf.c
index 346d36d..f770615 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -150,9 +150,11 @@ read_conf(void)
         remove_blanks(ptr1);    /* at the end of the line */
 
         /* get the name of the var */
-        if ((namesize = get_word(&ptr1)) == 0)
+        if ((namesize = get_word(&ptr1)) == 0) {
             /* name is zero-length */
             error("Zero-length var name at line %s : line ignored", buf);
+            continue;
+        }
 
         ptr2 = ptr1 + namesize;
 
-- 
2.43.0


From ba30e29bd642d2a5e7a2289920c04ece43149eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 71/92] fix: fcrontab crashed on the option tzdiff in the line
 of a job

---
 fileconf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index d0f1758..92e760d 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1349,6 +1349,7 @@ read_shortcut(char *ptr, cf_t *cf)
     char *ptr_orig = ptr;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the @ */
     ptr++;
@@ -1496,6 +1497,7 @@ read_freq(char *ptr, cf_t *cf)
     cl_t *cl = NULL;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the @ */
     ptr++;
@@ -1594,6 +1596,7 @@ read_arys(char *ptr, cf_t *cf)
     int i = 0;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* set cl_remain if not specified */
     if (*ptr == '&') {
@@ -1680,6 +1683,7 @@ read_period(char *ptr, cf_t *cf)
     short int remain = 8;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the % */
     ptr++;
-- 
2.43.0


From 6d2a79c080f22cbbe062c10ec9eb2c1b2f17a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 72/92] fix: a display name of the maximum length must still be
 accepted

---
 mail.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mail.c b/mail.c
index 9abeafd..30d2753 100644
--- a/mail.c
+++ b/mail.c
@@ -38,7 +38,7 @@ format_maildisplayname(char *displayname_conf)
     char *ipos = NULL;          /* Input position */
     char *output = NULL, *quoted_output = NULL;
 
-    const uint buf_len = MAIL_FROM_VALUE_LEN_MAX;
+    const uint buf_len = MAIL_FROM_VALUE_LEN_MAX + 1;
     uint cwritten = 0;          /* how many chars we have written */
 
     if (strlen(displayname_conf) == 0) {
@@ -59,7 +59,7 @@ format_maildisplayname(char *displayname_conf)
             need_quotes = true;
         }
         if (cwritten >= buf_len - 1) {
-            error("Formatted 'displayname' exceeds %u chars", buf_len);
+            error("Formatted 'displayname' exceeds %u chars", buf_len - 1);
             Free_safe(output);
             return NULL;
         }
@@ -73,7 +73,7 @@ format_maildisplayname(char *displayname_conf)
         int needed_len = snprintf(quoted_output, buf_len, "\"%s\"", output);
         if (needed_len >= buf_len) {
             error("Formatted 'displayname' too long: length:%u > max:%u chars",
-                  needed_len, buf_len);
+                  needed_len, buf_len - 1);
             Free_safe(output);
             Free_safe(quoted_output);
             return NULL;
-- 
2.43.0


From f738a66e588b1802d5e6fe4b64eb6f41db6442f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 73/92] fix: fcron died (or forgot tables) if it could not read
 its spool dir at a reload

---
 conf.c  | 41 ++++++++++++++++++++++++++++++++++-------
 conf.h  |  5 +++++
 fcron.c |  7 ++++++-
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/conf.c b/conf.c
index 0add361..77be5ae 100644
--- a/conf.c
+++ b/conf.c
@@ -40,6 +40,10 @@ void claim_new_file(char *file_name);
 void remove_new_file(char *file_name);
 
 
+/* if not 0, part of the configuration could not be read because of a lack of
+ * resources, and synchronize_dir() must be called again at that time */
+time_t reload_retry = 0;
+
 /* this is used to create a list of files to remove, to add */
 typedef struct list_t {
     char *str;
@@ -86,8 +90,12 @@ synchronize_dir(const char *dir_name, int is_system_startup)
     list_t *new_list = NULL;
     list_t *file_list = NULL;
     list_t *list_cur = NULL;
+    cf_t *cf = NULL;
     DIR *dir;
     struct dirent *den;
+    int is_retry = (reload_retry != 0);
+
+    reload_retry = 0;
 
     if (strcmp(dir_name, ".") == 0)
         explain("updating configuration from %s", fcrontabs);
@@ -95,7 +103,7 @@ synchronize_dir(const char *dir_name, int is_system_startup)
         explain("updating configuration from %s", dir_name);
 
     if ((dir = opendir("."))) {
-        while ((den = readdir(dir))) {
+        while ((errno = 0, den = readdir(dir))) {
 
             if (strncmp(den->d_name, "rm.", 3) == 0) {
                 /* this is a file to remove from database */
@@ -120,11 +128,15 @@ synchronize_dir(const char *dir_name, int is_system_startup)
             }
             else if (strchr(den->d_name, '.') != NULL)
                 continue;
-            else
+            else {
                 /* this is a normal file : if file_base is not null,
                  * so if a database has already been created, we
-                 * ignore it */
-            if (file_base == NULL) {
+                 * ignore it (except if we could not read it then) */
+                for (cf = (is_retry) ? file_base : NULL; cf; cf = cf->cf_next)
+                    if (strcmp(cf->cf_user, den->d_name) == 0)
+                        break;
+                if (cf != NULL || (file_base != NULL && !is_retry))
+                    continue;
                 Alloc(list_cur, list_t);
                 list_cur->str = strdup2(den->d_name);
                 list_cur->next = file_list;
@@ -132,10 +144,18 @@ synchronize_dir(const char *dir_name, int is_system_startup)
             }
 
         }
+        if (errno != 0) {
+            error_e("Unable to read current dir: will retry in %ds",
+                    RELOAD_RETRY_DELAY);
+            reload_retry = now + RELOAD_RETRY_DELAY;
+        }
         closedir(dir);
     }
-    else
-        die("Unable to open current dir!");
+    else {
+        error_e("Unable to open current dir: will retry in %ds",
+                RELOAD_RETRY_DELAY);
+        reload_retry = now + RELOAD_RETRY_DELAY;
+    }
 
 
     /* proceed to adds or removes */
@@ -586,7 +606,14 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
 
     /* open file */
     if ((ff = fopen(file_name, "r")) == NULL) {
-        warn_e("Could not read %s (may have just been removed)", file_name);
+        if (errno == EMFILE || errno == ENFILE || errno == ENOMEM
+            || errno == EINTR || errno == EIO) {
+            error_e("Could not read %s: will retry in %ds", file_name,
+                    RELOAD_RETRY_DELAY);
+            reload_retry = now + RELOAD_RETRY_DELAY;
+        }
+        else
+            warn_e("Could not read %s (may have just been removed)", file_name);
         goto err;
     }
     /* a mailer started while we read it must not inherit it */
diff --git a/conf.h b/conf.h
index 011c4c6..516aa24 100644
--- a/conf.h
+++ b/conf.h
@@ -25,6 +25,11 @@
 #ifndef __CONF_H__
 #define __CONF_H__
 
+#define RELOAD_RETRY_DELAY 20   /* seconds */
+
+/* global variables */
+extern time_t reload_retry;
+
 /* functions prototypes */
 extern void reload_all(const char *dir_name);
 extern void synchronize_dir(const char *dir_name, int is_system_startup);
diff --git a/fcron.c b/fcron.c
index 4526157..c3c26fc 100644
--- a/fcron.c
+++ b/fcron.c
@@ -810,7 +810,7 @@ check_signal()
         xexit(EXIT_OK);
     }
 
-    if (sig_hup == true) {
+    if (sig_hup == true || (reload_retry != 0 && reload_retry <= now)) {
         /* update configuration */
         sig_hup = false;
         synchronize_dir(".", 0);
@@ -1019,6 +1019,11 @@ main_loop()
 #if defined(FCRONDYN) && defined(HAVE_GETTIMEOFDAY)
         nwt = fcrondyn_socket_timeout(nwt);
 #endif
+        if (reload_retry != 0) {
+            /* the clock may have been set back */
+            reload_retry = tmin(reload_retry, now + RELOAD_RETRY_DELAY);
+            nwt = tmin(nwt, reload_retry);
+        }
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
-- 
2.43.0


From 1cac6291da88b99b7c68112f4eed12deac35763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 74/92] fix: fcron looped endlessly on a connection it could
 not accept

---
 fcrondyn_svr.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index e56cebd..9b86b8e 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -58,6 +58,8 @@ void cmd_run(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root);
 fcrondyn_cl *fcrondyn_cl_base;  /* list of connected fcrondyn clients */
 int fcrondyn_cl_num = 0;        /* number of fcrondyn clients currently connected */
 int listen_fd = -1;             /* fd which catches incoming connection */
+/* if not 0, we ignore incoming connections until that time */
+time_t accept_retry = 0;
 int auth_fail = 0;              /* number of auth failure */
 time_t auth_nofail_since = 0;   /* we refuse auth since x due to too many failures */
 static char truncated[] = " (truncated)\n";
@@ -917,6 +919,9 @@ fcrondyn_socket_timeout(time_t lim)
 {
     struct fcrondyn_cl *client = NULL;
 
+    if (accept_retry != 0)
+        lim = tmin(lim, accept_retry);
+
     for (client = fcrondyn_cl_base; client != NULL; client = client->fcl_next)
         lim = tmin(lim, client->fcl_idle_since + 1 +
                    ((client->fcl_user == NULL) ? MAX_AUTH_TIME :
@@ -929,7 +934,7 @@ void
 fcrondyn_socket_check(select_instance *si)
     /* check for new connection, command, connection closed */
 {
-    int fd = -1, avoid_fd = -1;
+    int fd = -1, avoid_fd = -1, err = 0;
     socklen_t addr_len = sizeof(struct sockaddr_un);
     struct sockaddr_un client_addr;
     /* one more, so that a string in a message is always null-terminated */
@@ -937,19 +942,35 @@ fcrondyn_socket_check(select_instance *si)
     int read_len = 0;
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
+    if (accept_retry != 0) {
+        /* the clock may have been set back */
+        accept_retry = tmin(accept_retry, now + 1);
+        if (accept_retry <= now) {
+            accept_retry = 0;
+            select_add_read(si, listen_fd);
+        }
+    }
+
     if (si->retcode < 0)
         /* no socket to check : go directly to the end of that function */
         return;
 
     debug("Checking socket ...");
 
-    if (FD_ISSET(listen_fd, &si->readfds)) {
+    if (listen_fd != -1 && FD_ISSET(listen_fd, &si->readfds)) {
         debug("got new connection ...");
         fd = accept(listen_fd, (struct sockaddr *)&client_addr, &addr_len);
         if (fd == -1) {
+            err = errno;
             error_e
                 ("could not accept new connection : isset(listen_fd = %d) = %d",
                  listen_fd, FD_ISSET(listen_fd, &si->readfds));
+            if (err != EAGAIN && err != EINTR && err != ECONNABORTED) {
+                /* (out of fds, etc) the connection is still pending: select()
+                 * would return at once until we can accept it */
+                select_rm_read(si, listen_fd);
+                accept_retry = now + 1;
+            }
         }
         else {
             fcntl(fd, F_SETFD, 1);
@@ -1028,9 +1049,15 @@ fcrondyn_socket_check(select_instance *si)
                 remove_connection(&client, prev_client, si);
             }
             else {
+                err = errno;
                 error_e("error recv() from sock fd %d", client->fcl_sock_fd);
-                prev_client = client;
-                client = client->fcl_next;
+                if (err != EAGAIN && err != EINTR && err != ENOMEM)
+                    /* connection broken */
+                    remove_connection(&client, prev_client, si);
+                else {
+                    prev_client = client;
+                    client = client->fcl_next;
+                }
             }
         }
         else {
-- 
2.43.0


From 9a755a5e0c5c1c052ae886e36d93d9b440557cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 75/92] fix: a transient failure of select() stopped fcron

---
 select.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/select.c b/select.c
index 3574a4c..8fbd880 100644
--- a/select.c
+++ b/select.c
@@ -83,7 +83,16 @@ select_call(struct select_instance *si, struct timeval *timeout,
 
     si->retcode =
         pselect(si->__fd_max + 1, &si->readfds, NULL, NULL, &ts, sigmask);
-    if (si->retcode < 0 && errno != EINTR) {
-        die_e("select returned %d", errno);
+    if (si->retcode < 0) {
+        int err = errno;
+
+        /* nothing is known of the fds */
+        FD_ZERO(&si->readfds);
+        if (err == ENOMEM) {
+            error_e("select failed");
+            sleep(1);
+        }
+        else if (err != EINTR)
+            die_e("select returned %d", err);
     }
 }
-- 
2.43.0


From 1dd71c02c8325bcd6ff541b70ecf911ad436ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 76/92] fix: reload of all fcrontabs lost (or ran again) jobs
 after a failed save or read

---
 conf.c | 70 ++++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/conf.c b/conf.c
index 77be5ae..94cc9a4 100644
--- a/conf.c
+++ b/conf.c
@@ -57,26 +57,39 @@ reload_all(const char *dir_name)
      * and reload from dir_name */
 {
     cf_t *f = NULL;
+    cf_t *next = NULL;
 
     explain("Removing current configuration from memory");
 
-    f = file_base;
-    while (f != NULL) {
+    for (f = file_base; f != NULL; f = next) {
+        next = f->cf_next;
         if (f->cf_running > 0)
             wait_all(&f->cf_running);
-        save_file(f);
-        delete_file(f->cf_user);
-
-        /* delete_file remove the f file from the list :
-         * next file to remove is now pointed by file_base. */
-        f = file_base;
+        if (save_file(f) == OK)
+            delete_file(f->cf_user);
+        else
+            error("Keeping the fcrontab of %s in memory, as it could not be"
+                  " saved", f->cf_user);
     }
 
+    /* all the files which are not in memory have to be read */
+    reload_retry = now;
     synchronize_dir(dir_name, 0);
 
 }
 
 
+static void
+retry_later(void)
+    /* we could not read part of the configuration: if this comes from a lack
+     * of resources (see errno), try again later */
+{
+    if (errno == EMFILE || errno == ENFILE || errno == ENOMEM
+        || errno == EINTR || errno == EIO)
+        reload_retry = now + RELOAD_RETRY_DELAY;
+}
+
+
 void
 synchronize_dir(const char *dir_name, int is_system_startup)
     /* read dir_name and create three list of files to remove,
@@ -145,9 +158,9 @@ synchronize_dir(const char *dir_name, int is_system_startup)
 
         }
         if (errno != 0) {
+            reload_retry = now + RELOAD_RETRY_DELAY;
             error_e("Unable to read current dir: will retry in %ds",
                     RELOAD_RETRY_DELAY);
-            reload_retry = now + RELOAD_RETRY_DELAY;
         }
         closedir(dir);
     }
@@ -506,6 +519,20 @@ synchronize_file(char *file_name, int is_system_startup)
 }
 
 
+static ssize_t
+read_bytes(int fd, void *to, size_t size)
+/* read() in a binary fcrontab file. errno is 0 if no error occurred */
+{
+    ssize_t len = 0;
+
+    errno = 0;
+    if ((len = read(fd, to, size)) < 0)
+        retry_later();
+
+    return len;
+}
+
+
 int
 read_strn(int fd, char **str, short int size)
 /* read a "size"-length string in a binary fcrontab file */
@@ -518,7 +545,7 @@ read_strn(int fd, char **str, short int size)
     if ((*str = calloc(size + 1, sizeof(char))) == NULL)
         goto err;
 
-    if (read(fd, *str, size) < size)
+    if (read_bytes(fd, *str, size) < size)
         goto err;
     (*str)[size] = '\0';
     return OK;
@@ -533,9 +560,9 @@ int
 read_type(int fd, short int *type, short int *size)
 /* read the type and size of the next field in a binary fcrontab file */
 {
-    if (read(fd, type, sizeof(short int)) < sizeof(short int))
+    if (read_bytes(fd, type, sizeof(short int)) < (ssize_t) sizeof(short int))
         goto err;
-    if (read(fd, size, sizeof(short int)) < sizeof(short int))
+    if (read_bytes(fd, size, sizeof(short int)) < (ssize_t) sizeof(short int))
         goto err;
 
     return OK;
@@ -555,7 +582,7 @@ read_field(int fd, void *to, short int size, size_t to_size)
         /* the file is damaged */
         return ERR;
 
-    if (read(fd, to, size) < size)
+    if (read_bytes(fd, to, size) < size)
         return ERR;
 
     return OK;
@@ -606,14 +633,8 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
 
     /* open file */
     if ((ff = fopen(file_name, "r")) == NULL) {
-        if (errno == EMFILE || errno == ENFILE || errno == ENOMEM
-            || errno == EINTR || errno == EIO) {
-            error_e("Could not read %s: will retry in %ds", file_name,
-                    RELOAD_RETRY_DELAY);
-            reload_retry = now + RELOAD_RETRY_DELAY;
-        }
-        else
-            warn_e("Could not read %s (may have just been removed)", file_name);
+        retry_later();
+        warn_e("Could not read %s (may have just been removed)", file_name);
         goto err;
     }
     /* a mailer started while we read it must not inherit it */
@@ -623,6 +644,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
      * of this file should be set to the owner */
     rc = fstat(fileno(ff), &file_stat);
     if (rc != 0) {
+        retry_later();
         error_e("Could not stat %s", file_name);
         goto err;
     }
@@ -951,6 +973,12 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         }
     }
 
+    if (errno != 0) {
+        /* do not use an incomplete file: we would save it as is */
+        error_e("Error while reading file %s", file_name);
+        goto err;
+    }
+
     /* free last cl Alloc : unused */
     free_line(cl);
     Free_safe(runas_str);
-- 
2.43.0


From 94ea2375d4129787319c9babc95e78294d3c8fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 77/92] fix: a persistent error of recv() made fcron loop
 endlessly

---
 fcrondyn_svr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 9b86b8e..e1a362c 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -1051,7 +1051,7 @@ fcrondyn_socket_check(select_instance *si)
             else {
                 err = errno;
                 error_e("error recv() from sock fd %d", client->fcl_sock_fd);
-                if (err != EAGAIN && err != EINTR && err != ENOMEM)
+                if (err != EAGAIN && err != EINTR)
                     /* connection broken */
                     remove_connection(&client, prev_client, si);
                 else {
-- 
2.43.0


From 14a2663e879199785874ae41b2fe270a190caa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 78/92] fix: mails about missed runs had wrong times, or were
 sent when none was missed

The time since which an &-job has not run was the one of its next
execution, and not in the time zone of the job. Jobs with runatreboot
or runatresume were announced although no execution had been missed.
---
 database.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/database.c b/database.c
index 53b655d..f3e7038 100644
--- a/database.c
+++ b/database.c
@@ -1509,7 +1509,10 @@ set_next_exe_startup(struct cl_t *cl, const int context,
         if ((context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
 
-            if (is_notice_notrun(cl->cl_option)) {
+            /* there is nothing to tell about a new line, or if the next
+             * execution is yet to come */
+            if (is_notice_notrun(cl->cl_option)
+                && cl->cl_nextexe != 0 && cl->cl_nextexe <= now) {
 
                 if (cl->cl_runfreq == 1) {
                     /* %-line */
@@ -1679,12 +1682,13 @@ mail_notrun_time_t(cl_t *line, char context, time_t since_time_t)
     struct tm since;
     int tz_changed = 0;
 
-    since2 = localtime(&line->cl_nextexe);
-    memcpy(&since, since2, sizeof(since));
-
+    /* the mail tells the times in the time zone of the line */
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
 
-    mail_notrun(line, SYSDOWN, &since);
+    since2 = localtime(&since_time_t);
+    memcpy(&since, since2, sizeof(since));
+
+    mail_notrun(line, context, &since);
 
     if (tz_changed > 0)
         switch_back_timezone(orig_tz_envvar);
-- 
2.43.0


From e393b0d9b513b65195200335eff7b94c9a82fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 79/92] fix: a run dropped from the lavg queue after a suspend
 was not announced

set_next_exe_notrun() looked at the period of the current time instead
of the one of the interval which is over.
---
 database.c | 23 +++++++++++------------
 database.h |  3 ++-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/database.c b/database.c
index f3e7038..9e66605 100644
--- a/database.c
+++ b/database.c
@@ -1375,9 +1375,10 @@ set_next_exe(cl_t *line, char option, int info_fd)
 }
 
 void
-set_next_exe_notrun(cl_t *line, char context)
+set_next_exe_notrun(cl_t *line, char context, time_t missed)
     /* set the time of the next execution and send a mail to tell user his job
-     * has not run if necessary */
+     * has not run if necessary. 'missed' is the time of the execution (or of
+     * the end of its interval) which did not happen. */
 {
     time_t previous_period = 0, next_period = 0;
     struct tm *ft = NULL;
@@ -1398,15 +1399,12 @@ set_next_exe_notrun(cl_t *line, char context)
      * of the function. */
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
 
-    if (context == SYSDOWN || context == SYSDOWN_RUNATREBOOT) {
-        /* handle timezone differences */
-        previous_period = line->cl_nextexe - (line->cl_file->cf_tzdiff * 3600);
+    /* handle timezone differences */
+    previous_period = missed - (line->cl_file->cf_tzdiff * 3600);
+    if (context == SYSDOWN || context == SYSDOWN_RUNATREBOOT)
         set_next_exe_opt = NO_GOTO;
-    }
-    else {
-        previous_period = now - (line->cl_file->cf_tzdiff * 3600);
+    else
         set_next_exe_opt = NO_GOTO_LOG;
-    }
     ft = localtime(&previous_period);
 
     /* localtime() function seem to return every time the same pointer :
@@ -1516,7 +1514,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
 
                 if (cl->cl_runfreq == 1) {
                     /* %-line */
-                    set_next_exe_notrun(cl, SYSDOWN_RUNATREBOOT);
+                    set_next_exe_notrun(cl, SYSDOWN_RUNATREBOOT,
+                                        cl->cl_nextexe);
                 }
                 else {
                     /* set next exe and mail user */
@@ -1539,7 +1538,7 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                 /* the is a line from a new file */
                 set_next_exe(cl, NO_GOTO, -1);
             else if (cl->cl_runfreq == 1 && is_notice_notrun(cl->cl_option))
-                set_next_exe_notrun(cl, SYSDOWN);
+                set_next_exe_notrun(cl, SYSDOWN, cl->cl_nextexe);
             else if (is_bootrun(cl->cl_option) && !is_new_file
                      && cl->cl_runfreq != 1) {
                 if (cl->cl_remain > 0 && --cl->cl_remain > 0) {
@@ -1839,7 +1838,7 @@ check_lavg(time_t lim)
                 /* set time of the next execution and send a mail if needed */
                 if (is_td(l->l_line->cl_option) &&
                     is_notice_notrun(l->l_line->cl_option))
-                    set_next_exe_notrun(l->l_line, LAVG);
+                    set_next_exe_notrun(l->l_line, LAVG, l->l_until);
                 else
                     set_next_exe(l->l_line, NO_GOTO_LOG, -1);
 
diff --git a/database.h b/database.h
index 9ea6f2b..1a8a8bf 100644
--- a/database.h
+++ b/database.h
@@ -35,7 +35,8 @@ extern void set_next_exe(struct cl_t *line, char option, int info_fd);
 #define NO_GOTO 1               /* set_next_exe() : no goto_non_matching() */
 #define NO_GOTO_LOG 2           /* set_next_exe() : NO_GOTO but also log nextexe time */
 #define FROM_CUR_NEXTEXE 4      /* set_next_exe() : compute from nextexe, not now */
-extern void set_next_exe_notrun(struct cl_t *line, char context);
+extern void set_next_exe_notrun(struct cl_t *line, char context,
+                                time_t missed);
 #define LAVG 1                  /* set_next_exe_notrun() : context */
 #define SYSDOWN 2               /* set_next_exe_notrun() : context */
 #define QUEUE_FULL 3            /* set_next_exe_notrun() : context */
-- 
2.43.0


From a89a4ef77d516e029f77a63f7a93849ce4bab857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:44 +0000
Subject: [PATCH 80/92] fix: fcrontab accepted malformed fields and numbers
 with a wrong meaning

A missing number was read as 0 (as in "5-", "1,,2" or "1-*"), "*5" as
both "*" and "5", day 0 never matches, and a load average greater than
25.5 was cut to 8 bits.
---
 fileconf.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 92e760d..53ea689 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1833,6 +1833,7 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
      *  Also check if that number is less than max */
 {
     int i = 0;
+    char *start = ptr;
     *num = 0;
 
     if (isalpha((int)*ptr)) {
@@ -1898,6 +1899,12 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
         if (decimal > 0)
             *num *= 10 * decimal;
 
+        if (ptr == start || *num > max) {
+            /* no number at all, or too big a one */
+            need_correction = 1;
+            return NULL;
+        }
+
     }
 
     return ptr;
@@ -1913,14 +1920,16 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
     int step = 0;
     int rm = 0;
     int i = 0;
+    int first = 1;
 
     while ((*ptr != ' ') && (*ptr != '\t') && (*ptr != '\0')) {
 
         start = stop = step = 0;
 
-        /* there may be a "," */
-        if (*ptr == ',')
+        /* there must be a "," between two values */
+        if (*ptr == ',' && !first)
             ptr++;
+        first = 0;
 
         if (*ptr == '*') {
             /* we have to fill everything (may be modified by a step ) */
@@ -1946,6 +1955,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                 }
                 start -= 1;
             }
+            else if (max == 31 && start < 1) {
+                need_correction = 1;
+                return NULL;
+            }
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1972,6 +1985,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                     }
                     stop -= 1;
                 }
+                else if (max == 31 && stop < 1) {
+                    need_correction = 1;
+                    return NULL;
+                }
             }
             else {
                 /* syntax error */
@@ -2042,6 +2059,12 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
 
         }
 
+        if (*ptr != ',' && *ptr != ' ' && *ptr != '\t' && *ptr != '\0') {
+            /* syntax error */
+            need_correction = 1;
+            return NULL;
+        }
+
     }
 
     /* Sunday is both 0 and 7 : if one is set, set the other */
-- 
2.43.0


From cb890c859bc3f3f0148c3a4870efd40488daccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 81/92] fix: fcrontab did not tell about some errors and
 ignored lines of a table

---
 fileconf.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 53ea689..163ec12 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -184,7 +184,7 @@ read_file(char *filename, int fd)
     int max_entries = MAXENTRIES;
     int entries = 0;
     char *ptr = NULL;
-    int ret;
+    int ret = OK;
 
     bzero(buf, sizeof(buf));
     need_correction = 0;
@@ -287,10 +287,15 @@ read_file(char *filename, int fd)
         error("%s:%d: maximum number of entries (%d) has been reached by %s",
               file_name, line, max_entries, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
+        if (ret != GET_LINE_EOF)
+            need_correction = 1;
     }
-    else if (line == max_lines)
+    else if (ret != GET_LINE_EOF) {
         error("%s:%d: maximum number of lines (%d) has been reached by %s",
               file_name, line, max_lines, user);
+        fprintf(stderr, "Anything after this line will be ignored\n");
+        need_correction = 1;
+    }
 
     cf->cf_next = file_base;
     file_base = cf;
@@ -451,13 +456,13 @@ assign_option_string(char **var, char *value)
 {
     char start = value[0];
     char end = '\0';
-    size_t len = 0;
-
-    Free_safe(*var);
+    int len = 0;
 
     len = option_strlen(value);
 
     if (len <= 0) {
+        if (len == 0)
+            Free_safe(*var);
         return len;
     }
 
@@ -466,9 +471,11 @@ assign_option_string(char **var, char *value)
     /* spaces and quotes are not allowed before or after the value */
     if (isspace((int)start) || isspace((int)end)
         || start == '\'' || start == '"' || end == '\'' || end == '"') {
+        /* the value we already had (if any) is kept */
         return -1;
     }
 
+    Free_safe(*var);
     *var = strndup2(value, len);
 
     return len;
@@ -1583,6 +1590,7 @@ read_freq(char *ptr, cf_t *cf)
           fprintf(stderr, "\n"); \
       fprintf(stderr, "%s:%d: Error while reading " DESCRP " field: " \
              "skipping line.\n", file_name, line); \
+      need_correction = 1; \
       Free_safe(cl); \
       return; \
   }
-- 
2.43.0


From c6c886ba43d5ea275f549a65fc4698e256437294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 82/92] fix: fcrontab -e lost an edit saved within the second
 it was started

---
 fcrontab.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 4fc0b01..b167539 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -440,6 +440,19 @@ list_file(const char *file)
 
 }
 
+int
+has_changed(const struct stat *before, const struct stat *after)
+    /* return 1 if a file has been modified (maybe within the same second) */
+{
+#if defined(_POSIX_VERSION) && _POSIX_VERSION >= 200809L
+    if (after->st_mtim.tv_nsec != before->st_mtim.tv_nsec)
+        return 1;
+#endif
+    return after->st_mtime != before->st_mtime
+        || after->st_size != before->st_size
+        || after->st_ino != before->st_ino;
+}
+
 void
 edit_file(const char *fcron_orig)
     /* copy file to a temp file, edit that file, and install it
@@ -450,7 +463,7 @@ edit_file(const char *fcron_orig)
     pid_t pid;
     int status;
     struct stat st;
-    time_t mtime = 0;
+    struct stat before;
     char *tmp_str = NULL;
     FILE *f = NULL, *fi = NULL;
     int file = -1, origfd = -1;
@@ -517,9 +530,7 @@ edit_file(const char *fcron_orig)
 
     do {
 
-        if (fstat(file, &st) == 0)
-            mtime = st.st_mtime;
-        else {
+        if (fstat(file, &before) != 0) {
             error_e("could not stat \"%s\"", tmp_str);
             goto exiterr;
         }
@@ -601,7 +612,7 @@ edit_file(const char *fcron_orig)
             goto exiterr;
         }
 
-        else if (st.st_mtime > mtime || correction == 1) {
+        else if (has_changed(&before, &st) || correction == 1) {
 
             correction = 0;
 
-- 
2.43.0


From c482f50d81186d6f2ec3c7946a02c8e14d4e554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 83/92] fix: a failed installation changed what fcrontab -l
 shows or removed the table

---
 fcrontab.c | 80 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index b167539..fe539df 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -187,17 +187,15 @@ xexit(int exit_val)
 }
 
 int
-copy_src(int from, const char *dest)
-    /* copy src file orig (already opened) to dest */
-    /* we first copy the file to a temp file name, and then we rename it,
-     * so as to avoid data loss if the filesystem is full. */
+copy_src(int from, const char *dest, char *tmp_filename_str, size_t tmp_size)
+    /* copy src file orig (already opened) to a temp file, which the caller
+     * must then rename to dest (so as to avoid data loss if the filesystem
+     * is full) or remove */
 {
     int to_fd = -1;
     int nb;
     char *copy_buf[LINE_LEN];
 
-    char tmp_filename_str[PATH_LEN];
-
     if (from < 0) {
         die("copy_src() called with an invalid 'from' argument");
     }
@@ -207,8 +205,8 @@ copy_src(int from, const char *dest)
 
     /* the temp file must be in the same directory as the dest file, and
      * must not be the one of another fcrontab running at the same time */
-    if (snprintf(tmp_filename_str, sizeof(tmp_filename_str), "%s.%d.tmp", dest,
-                 (int)getpid()) >= sizeof(tmp_filename_str)) {
+    if (snprintf(tmp_filename_str, tmp_size, "%s.%d.tmp", dest,
+                 (int)getpid()) >= tmp_size) {
         error("file name too long: %s", dest);
         return ERR;
     }
@@ -251,12 +249,6 @@ copy_src(int from, const char *dest)
 
     xclose_check(&to_fd, dest);
 
-    if (rename_as_user(tmp_filename_str, dest, useruid, fcrontab_gid) < 0) {
-        error_e("Unable to rename %s to %s : old source file kept",
-                tmp_filename_str, dest);
-        goto exiterr;
-    }
-
     return OK;
 
  exiterr:
@@ -345,33 +337,55 @@ int
 write_file(int fd)
 {
     int return_val = OK;
+    char orig_tmp_str[PATH_LEN];
+    char new_tmp_str[PATH_LEN];
 
-    if (ignore_prev == 1)
-        /* if user wants to ignore previous version, we remove it *
-         * ( fcron daemon remove files no longer wanted before
-         *   adding new ones ) */
-        remove_fcrontab(0);
+    /* first write everything to temp files, so as the previous version is left
+     * untouched if that is not possible (e.g. the file system is full) */
 
     /* copy original file to fcrontabs dir */
     snprintf(buf, sizeof(buf), "%s.orig", user);
-    if (copy_src(fd, buf) == ERR) {
-        return_val = ERR;
+    if (copy_src(fd, buf, orig_tmp_str, sizeof(orig_tmp_str)) == ERR)
+        return ERR;
+
+    /* write the binary fcrontab on disk */
+    snprintf(new_tmp_str, sizeof(new_tmp_str), "new.%s.%d.tmp", user,
+             (int)getpid());
+    if (file_base->cf_line_base != NULL && save_file(new_tmp_str) != OK) {
+        remove_as_user(orig_tmp_str, useruid, fcrontab_gid);
+        return ERR;
+    }
+
+    if (rename_as_user(orig_tmp_str, buf, useruid, fcrontab_gid) < 0) {
+        error_e("Unable to rename %s to %s : old source file kept",
+                orig_tmp_str, buf);
+        remove_as_user(orig_tmp_str, useruid, fcrontab_gid);
+        if (file_base->cf_line_base != NULL)
+            remove_as_user(new_tmp_str, useruid, fcrontab_gid);
+        return ERR;
+    }
+
+    if (file_base->cf_line_base == NULL) {
+        /* no entries */
+        explain("%s's fcrontab contains no entries : removed.", user);
+        if (remove_fcrontab(0) == ERR)
+            return_val = ERR;
     }
     else {
+        if (ignore_prev == 1)
+            /* if user wants to ignore previous version, we remove it *
+             * ( fcron daemon remove files no longer wanted before
+             *   adding new ones ) */
+            remove_fcrontab(0);
 
-        if (file_base->cf_line_base == NULL) {
-            /* no entries */
-            explain("%s's fcrontab contains no entries : removed.", user);
-            if (remove_fcrontab(0) == ERR)
-                return_val = ERR;
-        }
-        else {
-            /* write the binary fcrontab on disk */
-            snprintf(buf, sizeof(buf), "new.%s", user);
-            if (save_file(buf) != OK)
-                return_val = ERR;
+        snprintf(buf, sizeof(buf), "new.%s", user);
+        if (rename_as_user(new_tmp_str, buf, useruid, fcrontab_gid) < 0) {
+            error_e("Unable to rename %s to %s", new_tmp_str, buf);
+            remove_as_user(new_tmp_str, useruid, fcrontab_gid);
+            return_val = ERR;
         }
-
+        else if (sync_dir_as_user(fcrontab_uid, fcrontab_gid) != 0)
+            error_e("Could not sync the directory of %s", buf);
     }
 
     return return_val;
-- 
2.43.0


From e266f70a7732219287aac935898b69cd016a2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 84/92] fix: fcrontab -l did not tell when the table could not
 be read or printed

---
 fcrontab.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index fe539df..2735f41 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -448,6 +448,10 @@ list_file(const char *file)
 
     while ((c = getc(f)) != EOF)
         putchar(c);
+    if (ferror(f))
+        die_e("could not read file \"%s\"", file);
+    if (fflush(stdout) != 0 || ferror(stdout))
+        die_e("could not write the content of file \"%s\"", file);
 
     /* also closes the underlying file descriptor fd: */
     xfclose_check(&f, file);
-- 
2.43.0


From fceaad6f1edca9e3893892bc3b0894a208a6a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 85/92] fix: fcrontab left its temporary file when it could not
 write it

---
 fcrontab.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 2735f41..897b3f4 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -542,8 +542,10 @@ edit_file(const char *fcron_orig)
     }
 
     /* Don't close fi, because we still need the file descriptor 'file' */
-    if (fflush(fi) != 0)
-        die_e("Could not fflush(%s)", tmp_str);
+    if (fflush(fi) != 0) {
+        error_e("Could not fflush(%s)", tmp_str);
+        goto exiterr;
+    }
     fi = NULL;
 
     do {
@@ -722,8 +724,10 @@ install_stdin(void)
 
     tmp_fd = temp_file(&tmp_str);
 
-    if ((tmp_file = fdopen(tmp_fd, "w")) == NULL)
-        die_e("Could not fdopen file %s", tmp_str);
+    if ((tmp_file = fdopen(tmp_fd, "w")) == NULL) {
+        error_e("Could not fdopen file %s", tmp_str);
+        goto exiterr;
+    }
 
     while ((c = getc(stdin)) != EOF)
         putc(c, tmp_file);
@@ -735,8 +739,10 @@ install_stdin(void)
     debug("Copied stdin to %s, about to parse file %s...", tmp_str, tmp_str);
 
     /* don't closes tmp_fd as it will be used for make_file(): */
-    if (fflush(tmp_file) != 0)
-        die_e("Could not fflush(%s)", tmp_str);
+    if (fflush(tmp_file) != 0) {
+        error_e("Could not fflush(%s)", tmp_str);
+        goto exiterr;
+    }
 
     if (make_file(tmp_str, tmp_fd) == ERR)
         goto exiterr;
-- 
2.43.0


From dd9f115985dc5a8ba30cd21a16f7f593c2787bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:57 +0000
Subject: [PATCH 86/92] fix: temp_file() left its file when it could not set
 its mode

---
 temp_file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/temp_file.c b/temp_file.c
index 4cbd64e..178aa6b 100644
--- a/temp_file.c
+++ b/temp_file.c
@@ -44,8 +44,13 @@ temp_file(char **name)
         die_e("Can't find a unique temporary filename");
     /* we must set the file mode to 600 (some versions of mkstemp may set it
      * incorrectly) */
-    if (fchmod(fd, S_IWUSR | S_IRUSR) != 0)
+    if (fchmod(fd, S_IWUSR | S_IRUSR) != 0) {
+        int saved_errno = errno;
+
+        unlink(name_local);
+        errno = saved_errno;
         die_e("Can't fchmod temp file");
+    }
 #else
     const int max_retries = 50;
     char *name_local = NULL;
-- 
2.43.0


From 5c985b5d248abc5250d18b1c214e003cf9fa41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 87/92] fix: a runatreboot job interrupted by a crash was not
 run again if only fcron was restarted

set_next_exe_startup() leaves the run of such a job to the runatreboot
code, but this one only runs it at the startup of the system.
---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 9e66605..a3669f5 100644
--- a/database.c
+++ b/database.c
@@ -1472,7 +1472,7 @@ set_next_exe_startup(struct cl_t *cl, const int context,
 
         /* whatever the options, it is no longer running (nor queued) */
         cl->cl_numexe = 0;
-        if (is_runatreboot(cl->cl_option)) ;
+        if (context == CONTEXT_BOOT && is_runatreboot(cl->cl_option)) ;
         else if (is_lavg(cl->cl_option)) {
             if (!is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
-- 
2.43.0


From 876c6b3c8d13471a85f919a4e34b060711b0e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 88/92] fix: jobs put in the lavg queue at startup could wait
 there until the next save

The initial sleep of the main loop only took the serial queue into account.
---
 fcron.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index c3c26fc..cf2856c 100644
--- a/fcron.c
+++ b/fcron.c
@@ -890,7 +890,7 @@ main_loop()
     /* synchronize save with jobs execution */
     save = now + save_time;
 
-    if (serial_num > 0 || once) {
+    if (serial_num > 0 || lavg_list->num_entries > 0 || once) {
         nwt = now + first_sleep;
     }
     else {
-- 
2.43.0


From 5dd860becee1b68409dc123cde841fabe51bacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 89/92] fix: the log file of -p lacks the records of jobs
 (reopened as the user of the job) and PAM errors

---
 job.c | 9 ++++-----
 log.c | 4 ++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/job.c b/job.c
index 37e8b4b..c138174 100644
--- a/job.c
+++ b/job.c
@@ -187,8 +187,11 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
     }
 
     /* Close the log here, because PAM calls openlog(3) and
-     * our log messages could go to the wrong facility */
+     * our log messages could go to the wrong facility.
+     * Open it again at once: the user the job runs as may not be allowed to
+     * write to the log file. */
     xcloselog();
+    xopenlog();
 #endif                          /* ( ! defined(RUN_NON_PRIVILEGED)) && defined(HAVE_LIBPAM) */
 
     /* export the environment for sendmail before we apply user customization */
@@ -673,8 +676,6 @@ run_job(struct exe_t *exeent)
 
                 run_job_grand_child_setup_nice(line);
 
-                xcloselog();
-
 #if defined(CHECKJOBS) || defined(CHECKRUNJOB)
                 /* this will force to mail a message containing at least the exact
                  * and complete command executed for each execution of all jobs */
@@ -913,8 +914,6 @@ launch_mailer(cl_t *line, FILE *mailf, char **sendmailenv)
     if (dup2(fileno(mailf), 0) != 0)
         die_e("Can't dup2(fileno(mailf))");
 
-    xcloselog();
-
     if (chdir("/") < 0)
         die_e("Could not chdir to /");
 
diff --git a/log.c b/log.c
index 3022894..6388e61 100644
--- a/log.c
+++ b/log.c
@@ -97,6 +97,9 @@ xopenlog(void)
             fprintf(stderr, "Could not fopen log file '%s': %s\n", logfile_path,
                     strerror(saved_errno));
         }
+        else
+            /* the jobs and the mailer must not inherit it */
+            fcntl(fileno(logfile), F_SETFD, FD_CLOEXEC);
     }
 
 }
@@ -295,6 +298,7 @@ log_pame(int priority, pam_handle_t *pamh, int pamerrno, char *fmt,
         return;
 
     log_syslog_str(priority, msg);
+    log_file_str(priority, msg);
     log_console_str(priority, msg);
 
     xcloselog();
-- 
2.43.0


From f235d3d23f862c8af70def75b6bff1abca6abaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 90/92] fix: fcrontab loops for ever at a read error of the
 password, and leaves the terminal without echo when interrupted

---
 read_string.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/read_string.c b/read_string.c
index 9cde1dd..f04f17a 100644
--- a/read_string.c
+++ b/read_string.c
@@ -45,7 +45,8 @@ read_string(int echo, const char *prompt)
 {
     struct termios term_before, term_tmp;
     char line[PAM_MAX_MSG_SIZE];
-    int nc, have_term = 0;
+    int nc, saved_errno, have_term = 0;
+    sigset_t nset, oset;
 
     debug("called with echo='%s', prompt='%s'.", echo ? "ON" : "OFF", prompt);
 
@@ -61,6 +62,16 @@ read_string(int echo, const char *prompt)
             term_tmp.c_lflag &= ~(ECHO);
         have_term = 1;
 
+        /* the keys which stop the program must not leave the terminal
+         * without echo: they take effect once it is restored */
+        sigemptyset(&nset);
+        if (!echo) {
+            sigaddset(&nset, SIGINT);
+            sigaddset(&nset, SIGQUIT);
+            sigaddset(&nset, SIGTSTP);
+        }
+        sigprocmask(SIG_BLOCK, &nset, &oset);
+
     }
     else if (!echo)
         debug("warning: cannot turn echo off");
@@ -74,6 +85,7 @@ read_string(int echo, const char *prompt)
             (void)tcsetattr(STDIN_FILENO, TCSAFLUSH, &term_tmp);
 
         nc = read(STDIN_FILENO, line, sizeof(line) - 1);
+        saved_errno = errno;
         if (have_term) {
             (void)tcsetattr(STDIN_FILENO, TCSADRAIN, &term_before);
             if (!echo)          /* do we need a newline? */
@@ -91,6 +103,8 @@ read_string(int echo, const char *prompt)
             input = strdup2(line);
             Overwrite(line);
 
+            if (have_term)
+                (void)sigprocmask(SIG_SETMASK, &oset, NULL);
             return input;       /* return malloc()ed string */
         }
         else if (nc == 0) {     /* Ctrl-D */
@@ -98,10 +112,16 @@ read_string(int echo, const char *prompt)
             fprintf(stderr, "\n");
             break;
         }
+        else if (saved_errno != EINTR) {
+            debug("error: failed to read from the standard input");
+            break;
+        }
     }
 
-    if (have_term)
+    if (have_term) {
         (void)tcsetattr(STDIN_FILENO, TCSADRAIN, &term_before);
+        (void)sigprocmask(SIG_SETMASK, &oset, NULL);
+    }
 
     memset(line, 0, PAM_MAX_MSG_SIZE);  /* clean up */
     return NULL;
-- 
2.43.0


From cfb8b88db412478f5cf63c1a5e57cc1a8af24e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:16 +0000
Subject: [PATCH 91/92] fix: a line whose time zone or period was edited keeps
 the schedule it had before

---
 conf.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index 94cc9a4..117236f 100644
--- a/conf.c
+++ b/conf.c
@@ -341,6 +341,28 @@ remove_new_file(char *file_name)
 }
 
 
+static int
+is_same_period(cl_t *line1, cl_t *line2)
+/* return 1 if two lines based on time and date, which have the same fields,
+ * have to be run in the same periods and in the same time zone, 0 otherwise */
+{
+    if (!is_freq_periodically(line1->cl_option) !=
+        !is_freq_periodically(line2->cl_option)
+        || !is_freq_mid(line1->cl_option) != !is_freq_mid(line2->cl_option)
+        || !is_freq_mins(line1->cl_option) != !is_freq_mins(line2->cl_option)
+        || !is_freq_hrs(line1->cl_option) != !is_freq_hrs(line2->cl_option)
+        || !is_freq_days(line1->cl_option) != !is_freq_days(line2->cl_option)
+        || !is_freq_mons(line1->cl_option) != !is_freq_mons(line2->cl_option)
+        || !is_freq_dow(line1->cl_option) != !is_freq_dow(line2->cl_option))
+        return 0;
+
+    if (line1->cl_tz == NULL || line2->cl_tz == NULL)
+        return line1->cl_tz == line2->cl_tz;
+
+    return strcmp(line1->cl_tz, line2->cl_tz) == 0;
+}
+
+
 void
 synchronize_file(char *file_name, int is_system_startup)
 {
@@ -413,7 +435,8 @@ synchronize_file(char *file_name, int is_system_startup)
                                 && memcmp(&(new_l->cl_mins), &(old_l->cl_mins),
                                           size) == 0
                                 && is_dayor(new_l->cl_option) ==
-                                is_dayor(old_l->cl_option))
+                                is_dayor(old_l->cl_option)
+                                && is_same_period(new_l, old_l))
                         )) {
 
                         keep_running_and_queued(old_l, new_l);
-- 
2.43.0


From 134a8964b787e66088e9aeddc2e80b0bc539e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:41 +0000
Subject: [PATCH 92/92] fix: fcrondyn's values of kill and renice are truncated
 to an int

---
 fcrondyn_svr.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index e1a362c..dac5d37 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -726,10 +726,10 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #ifdef HAVE_SETPRIORITY
     /* check if arguments are valid */
-    if (e->e_job_pid <= 0 || ((int)cmd[1] < 0 && !is_root)
-        || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
-        warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
-             e->e_job_pid, (int)cmd[1], client->fcl_user);
+    if (e->e_job_pid <= 0 || (cmd[1] < 0 && !is_root)
+        || cmd[1] > 20 || cmd[1] < -20) {
+        warn("renice: invalid args : pid: %d nice_value: %ld user: %s.",
+             e->e_job_pid, cmd[1], client->fcl_user);
         Send_err_msg(fd, err_invalid_args_str);
         return;
     }
@@ -759,9 +759,9 @@ void
 cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
 /* send a signal to a running job */
 {
-    if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
-        warn("send_signal: invalid args : pid: %d signal: %d user: %s",
-             e->e_job_pid, (int)cmd[1], client->fcl_user);
+    if (e->e_job_pid <= 0 || cmd[1] <= 0 || cmd[1] > INT_MAX) {
+        warn("send_signal: invalid args : pid: %d signal: %ld user: %s",
+             e->e_job_pid, cmd[1], client->fcl_user);
         Send_err_msg(fd, err_invalid_args_str);
         return;
     }
-- 
2.43.0

