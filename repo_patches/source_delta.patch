From 30743cc272829921acb3d457629dbec5a3b425b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 01/58] fix: restore the signal mask of the outermost section
 instead of unblocking in nested ones

delete_job, wait_one, cd, fg and bg unblocked all signals inside sections that
rely on them being blocked, so a SIGCHLD could run its handler while the shell
was borrowed (abort) or steal the status of a foreground job.
---
 src/builtins.rs | 16 ++++++++--------
 src/eval.rs     | 18 ++++++++++++------
 src/jobs.rs     |  9 +++++++--
 src/main.rs     |  7 ++++++-
 src/shell.rs    |  2 ++
 src/trap.rs     | 28 +++++++++++++++++++++++-----
 6 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 59d9f72..8b2d3ec 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -56,9 +56,9 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
     } else {
         path = command.suffix.as_ref().unwrap().word[0].to_string();
     }
-    env::set_current_dir(path)?;
+    let result = env::set_current_dir(path);
     trap::interrupts_on();
-    Ok(())
+    result
 }
 
 /// This is the 'exit' command of the shell.
@@ -106,7 +106,6 @@ pub fn jobs() -> Result<(), std::io::Error> {
 /// They are used to bring a job to the foreground or background respectively.
 /// They take a SimpleCommand with a suffix that is either a valid Pid or a job id if it starts with a '%'.
 pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    trap::interrupts_off();
     let id;
     let id_type;
     if command.suffix.is_none() {
@@ -122,14 +121,15 @@ pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
         id_type = IdType::Pid;
     }
 
-    if command.name == "fg" {
-        fg(id.try_into().unwrap(), id_type)?;
+    trap::interrupts_off();
+    let result = if command.name == "fg" {
+        fg(id.try_into().unwrap(), id_type)
     } else {
-        bg(id.try_into().unwrap(), id_type)?;
-    }
+        bg(id.try_into().unwrap(), id_type)
+    };
     trap::interrupts_on();
 
-    Ok(())
+    result
 }
 
 /// This is the 'fg' command of the shell.
diff --git a/src/eval.rs b/src/eval.rs
index 1c83e5e..ae67d06 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -113,14 +113,24 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
 /// Interupts are blocked during the fork and exec part to prevent being interupted by a signal.
 fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
+    //block interrupts
+    trap::interrupts_off();
+    let result = eval_pipe_sequence(pipeline);
+    //unblock interrupts
+    trap::interrupts_on();
+
+    result
+}
+
+/// This does the work of eval_pipeline. It has to be called with interrupts blocked.
+fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
+
     let background = pipeline.background;
     let mut pipeline: &mut PipeSequence = &mut pipeline.pipe_sequence;
     
     let mut processes = Vec::new();
     let mut commands = Vec::new();
 
-    //block interrupts
-    trap::interrupts_off();
     for command in pipeline.iter_mut() {
         let process = eval_command(command)?;
         if process.is_none() {
@@ -293,10 +303,6 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     //let job = temp_exec(processes)?;
 
-    
-    //unblock interrupts
-    trap::interrupts_on();
-
     Ok(get_exit_code())
 }
 
diff --git a/src/jobs.rs b/src/jobs.rs
index 94e50cf..bf6870a 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -472,8 +472,13 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
     // block interapt
     trap::interrupts_off();
 
-    let result = wait_process(block)?;
-
+    let result = match wait_process(block) {
+        Ok(result) => result,
+        Err(errno) => {
+            trap::interrupts_on();
+            return Err(errno);
+        }
+    };
 
     if result.pid().is_none() {
         // unblock interupt
diff --git a/src/main.rs b/src/main.rs
index a7e4f64..bf79ed1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -181,12 +181,17 @@ fn interactive_loop() {
 
 
     let rl = shell::get_readline();
+    trap::interrupts_off();
     //rl.borrow_mut().bind_sequence(rustyline::Event::KeySeq(vec![rustyline::KeyEvent::ctrl('z')]), rustyline::Cmd::Suspend);
 
     loop {
         let input;
 
-        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap().as_str());
+        let prompt = shell::expand_var("PS1").unwrap();
+        // signals are only handled while we wait for input, as the handlers use the state of the shell
+        trap::interrupts_on();
+        let readline = rl.borrow_mut().readline(prompt.as_str());
+        trap::interrupts_off();
         match readline {
             Ok(line) => {
                 //rl.borrow_mut().add_history_entry(line.as_str());
diff --git a/src/shell.rs b/src/shell.rs
index ee89cdb..241d9d4 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -492,6 +492,8 @@ where
     trap::interrupts_off();
     let mut shell = SHELL.get().borrow_mut();
     shell.delete_job(id);
+    // the borrow has to end before a signal handler can run again
+    drop(shell);
     trap::interrupts_on();
 }
 
diff --git a/src/trap.rs b/src/trap.rs
index 0d22b4c..f17e8ce 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -8,7 +8,7 @@ use nix::unistd::Pid;
 use std::collections::HashMap;
 use lazy_static::lazy_static;
 use fragile::Fragile;
-use std::cell::RefCell;
+use std::cell::{Cell,RefCell};
 use std::cell::{Ref,RefMut};
 
 use crate::jobs::{self,JobState};
@@ -37,6 +37,13 @@ static mut PENDING_SIGNAL: Option<Signal> = None;
 /// This global represents if the shell should block signals
 static mut BLOCK_SIGNALS: AtomicBool = AtomicBool::new(false);
 
+thread_local! {
+    /// How many protected sections (see interrupts_off) we are in
+    static INTERRUPTS_OFF_DEPTH: Cell<usize> = Cell::new(0);
+    /// The signal mask to go back to when the outermost protected section ends
+    static INTERRUPTS_OFF_MASK: Cell<signal::SigSet> = Cell::new(signal::SigSet::empty());
+}
+
 lazy_static! {
     /// While this should be in the shell struct, because of the way that rustyline works, having it in the shell causes a thread panic.
     static ref TRAP_DATA: TrapWrapper = TrapWrapper::new(RefCell::new(TrapData::new()));
@@ -134,18 +141,29 @@ pub fn set_pending_signal(sig_num: c_int) {
 }
 
 /// This function blocks all signals except for SIGINT and SIGTSTP
+/// Sections that are protected this way can be nested: the mask of the outermost one is remembered.
 pub fn interrupts_off() {
+    let depth = INTERRUPTS_OFF_DEPTH.with(|depth| depth.replace(depth.get() + 1));
+
     let mut sigset = signal::SigSet::all();
     sigset.remove(signal::SIGINT);
     sigset.remove(signal::SIGTSTP);
     //sigset.remove(signal::SIGCHLD);
 
-    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&sigset), None).unwrap();
-    
+    if depth == 0 {
+        let mut old_mask = signal::SigSet::empty();
+        signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&sigset), Some(&mut old_mask)).unwrap();
+        INTERRUPTS_OFF_MASK.with(|mask| mask.set(old_mask));
+    }
 }
-/// This function unblocks all signals
+/// This function restores the signal mask once the outermost protected section ends
 pub fn interrupts_on() {
-    sig_clear_mask();
+    let depth = INTERRUPTS_OFF_DEPTH.with(|depth| depth.replace(depth.get().saturating_sub(1)));
+
+    if depth == 1 {
+        let old_mask = INTERRUPTS_OFF_MASK.with(|mask| mask.get());
+        signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&old_mask), None).unwrap();
+    }
 }
 
 /// This function checks for if we should be blocking signals
-- 
2.43.0


From 196e390114d487a99314b5ce899c110ca8d73895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 02/58] fix: waiting for a foreground job is not disturbed by
 other jobs

wait_one unwrapped the status of the first process of every job it came across
(panic while a background job runs or the first process of a pipeline lives
longest), do_wait stopped waiting as soon as any child was reaped, and the
status of a pipeline was the one of its first process.
---
 src/jobs.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index bf6870a..8787bb6 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -373,6 +373,15 @@ impl Job {
         &mut self.processes
     }
 
+    /// This method sets the status of the job once none of its processes is running any more.
+    /// It is the status of the last process, unless the job is stopped.
+    pub fn update_stop_status(&mut self) {
+        let stopped = self.processes.iter().find(|process| matches!(process.status, Some(WaitStatus::Stopped(_, _))));
+        if let Some(status) = stopped.or(self.processes.last()).and_then(|process| process.status) {
+            self.stop_status = status;
+        }
+    }
+
     /// This method sets the status of a process in the job via the pid.
     pub fn set_process_status(&mut self, pid: Pid, status: WaitStatus) {
         for process in &mut self.processes {
@@ -539,10 +548,9 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
                 stopped = true;
             }
         }
-        let stop_status = jb.borrow().processes[0].status.unwrap();
-        jb.borrow_mut().stop_status = stop_status;
         if this_job.is_some() {
             if state != JobState::Running {
+                jb.borrow_mut().update_stop_status();
                 this_job.as_ref().unwrap().borrow_mut().changed = true;
 
                 if this_job.as_ref().unwrap().borrow().state != state {
@@ -560,7 +568,15 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
     // unblock interupts
     trap::interrupts_on();
 
-    if this_job.is_some() && *this_job.as_ref().unwrap().borrow() == *job.as_ref().unwrap().borrow() {
+    // nobody else is going to look at a background job again, as its processes have been waited for
+    if this_job.is_some() && job != &this_job && this_job.as_ref().unwrap().borrow().state == JobState::Finished {
+        let id = {
+            this_job.as_ref().unwrap().borrow().job_id
+        };
+        shell::delete_job(id);
+    }
+
+    if this_job.is_some() && job == &this_job {
 
         let output = format_status(result, true);
 
@@ -605,7 +621,8 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
 
         block &= !DOWAIT_WAITCMD_ALL;
 
-        if pid.is_ok() || (job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running) {
+        // the wait is over once our job is, not when a process of some other job has changed state
+        if job.is_none() || job.as_ref().unwrap().borrow().state != JobState::Running {
             block = DOWAIT_NONBLOCK;
         }
        
-- 
2.43.0


From 8ab9883424aa649a20e0a927d3d6f8799edb0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 03/58] fix: jobs does not panic while listing jobs, nor do
 unset PS1 and PS4

---
 src/jobs.rs  | 8 ++++----
 src/main.rs  | 2 +-
 src/shell.rs | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 8787bb6..12ee6ed 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -252,7 +252,7 @@ impl Display for JobControl {
     fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
         let mut s = String::new();
         for (id, job) in self.job_table.borrow().iter() {
-            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap(), job.borrow()));
+            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         }
         write!(f, "{}", s)
     }
@@ -698,14 +698,14 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         },
         WaitStatus::Signaled(pid, signal, dump) => {
             let job = match shell::get_job(pid) {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             if dump {
                 output.push_str(&format!("({}) (core dumped)", signal));
             }
@@ -718,7 +718,7 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             output.push_str(&format!("({})", signal));
         },
         _ => return None,
diff --git a/src/main.rs b/src/main.rs
index bf79ed1..18cc3d6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -187,7 +187,7 @@ fn interactive_loop() {
     loop {
         let input;
 
-        let prompt = shell::expand_var("PS1").unwrap();
+        let prompt = shell::expand_var("PS1").unwrap_or_default();
         // signals are only handled while we wait for input, as the handlers use the state of the shell
         trap::interrupts_on();
         let readline = rl.borrow_mut().readline(prompt.as_str());
diff --git a/src/shell.rs b/src/shell.rs
index 241d9d4..2aa502b 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -297,7 +297,7 @@ impl Shell {
 	self.context_manager.remove_var(var);
     }
     /// This function takes in a &str and returns the value of the variable if it exists.
-    pub fn expand_variable(&mut self, var: &str) -> Option<String> {
+    pub fn expand_variable(&self, var: &str) -> Option<String> {
         let var = self.context_manager.get_var(var);
         if var.is_none() {
             return None;
@@ -642,7 +642,7 @@ pub fn add_var_context(set: &str) {
 }
 /// This function takes in a variable name and returns the value of that variable if it exists.
 pub fn expand_var(var: &str) -> Option<String> {
-    let mut shell = SHELL.get().borrow_mut();
+    let shell = SHELL.get().borrow();
     shell.expand_variable(var)
 }
 pub fn print_readonly_vars() {
-- 
2.43.0


From 3d5b0dd78114caf6e2f5358465fcebf868781839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 04/58] fix: the SIGCHLD handler waits for every child and
 never blocks

It reaped one child per signal although signals coalesce (zombies that jobs
keeps listing as running), and blocked until the whole job was done when one
process of a background pipeline ended. Stopped jobs that are killed are
finished as well.
---
 src/jobs.rs | 14 +++++---------
 src/trap.rs | 19 +++++++++++--------
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 12ee6ed..08b57ea 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -417,8 +417,7 @@ impl Display for Job {
 /// This function waits for a job to finish.
 ///
 /// This variant of the function is similar to to wait_for_job but also takes in a WaitStatus.
-/// This is called from a SIGCHLD handler as we need to to know the if the job only has one process or not.
-/// If the job has more than one process then we call the normal wait_for_job function.
+/// This is called from a SIGCHLD handler, so that the job goes away once all of its processes have terminated.
 pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -> WaitStatus {
 
     if job.is_none() {
@@ -426,19 +425,16 @@ pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -
     }
     let job = job.unwrap();
 
-    if job.borrow().processes.len() == 1 {
-        job.borrow_mut().stop_status = status;
+    // we must not block in a signal handler, there will be another SIGCHLD for the other processes
+    if job.borrow().processes.iter().all(|process| process.status.is_some()) {
+        job.borrow_mut().update_stop_status();
         job.borrow_mut().state = JobState::Finished;
         let id = {
             job.borrow().job_id
         };
         shell::delete_job(id);
-        return status;
     }
-    trap::interrupts_off();
-    let result = wait_for_job(Some(job));
-    trap::interrupts_on();
-    result
+    status
 }
 
 /// This function waits for a job to finish.
diff --git a/src/trap.rs b/src/trap.rs
index f17e8ce..568a64b 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -206,8 +206,8 @@ extern "C" fn on_sig(sig_num: c_int) {
         if sig_num == signal::SIGCHLD as c_int {
             GOT_SIGCHLD.store(true, Ordering::Relaxed);
 
-            sig_chld();
-            
+            // one signal can stand for any number of children
+            while sig_chld() {}
             
 
             //sig_chld();//this is different from how dash does it but it should allow for for traps to be set
@@ -239,13 +239,14 @@ extern "C" fn on_sig(sig_num: c_int) {
 ///
 /// We have to do some interesting logic here since if we accidentally wait on a non-background process then we will have to return early.
 /// If the process is in the background then we can wait on it.
-fn sig_chld() {
+/// Returns true if there was a child to wait for, in which case there may be others.
+fn sig_chld() -> bool {
     let pid = Pid::from_raw(-1);
 
     let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED;
     let result = waitpid(pid, Some(flag));
     if result.is_err() {
-        return;
+        return false;
     }
     let status = result.unwrap();
     let pid;
@@ -263,20 +264,21 @@ fn sig_chld() {
             status
         },
         WaitStatus::StillAlive => {
-            return;
+            return false;
         },
         _ => {
-            return;
+            return true;
         }, 
     };
 
     let job = shell::get_job(*pid);
     if job.is_none() {
-        return;
+        return true;
     }
     job.as_ref().unwrap().borrow_mut().set_process_status(*pid, status);
    
-    if job.as_ref().unwrap().borrow().background {
+    let stopped = job.as_ref().unwrap().borrow().state == JobState::Stopped;
+    if job.as_ref().unwrap().borrow().background || stopped {
         match status {
             WaitStatus::Signaled(_, _, _) => {
                 let msg = format!("Job [{}] ({}) terminated by signal",job.as_ref().unwrap().borrow().job_id, pid);
@@ -293,6 +295,7 @@ fn sig_chld() {
         
         jobs::wait_for_job_sigchld(job, status);
     }
+    true
 }
 
 /// This functions is called if the signal was a SIGINT.
-- 
2.43.0


From 86dcff8c593a5d0755d08e137eb76b0d932045c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 05/58] fix: the SIGINT handler neither aborts without a
 writable stdin nor unblocks signals

Clearing the mask in the handler let a SIGCHLD handler run nested in it, at a
point where the shell may be borrowed or about to wait for the child itself.
---
 src/trap.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/trap.rs b/src/trap.rs
index 568a64b..9e74fdb 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -223,7 +223,7 @@ extern "C" fn on_sig(sig_num: c_int) {
 
 
     if sig_num == signal::SIGINT as c_int && !is_trap_set(signal::SIGINT) {
-        nix::unistd::write(0,&[0xA as u8]).unwrap();
+        let _ = nix::unistd::write(0,&[0xA as u8]);
         //io::stdin().read_line(&mut String::new()).unwrap();
         unsafe {
             if !SUPRESS_SIGINT.load(Ordering::Relaxed) {
@@ -303,24 +303,12 @@ pub fn on_sigint() {
     unsafe {
         SIGINT_PENDING.store(false, Ordering::Relaxed);
     }
-    sigclearmask();
     // if !rootshell && iflag
     // signal sigint sig_dfl
     // raise sigint
     //exitstatus = 128 + sigint
 }
 
-/// This function clears the signal mask
-/// # Panics
-/// This function panics if sigprocmask fails
-fn sigclearmask() {
-    //sigsetmask(0);
-
-    let sigset = signal::SigSet::empty();
-    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&sigset), None).unwrap();
-}
-
-
 /// This function sets up the signal handler for signals
 /// It takes in a c_int which is the signal number
 pub fn set_signal(sig_num: c_int) {
-- 
2.43.0


From b20ab8c3b871fadc8e1d18e31322cfd21bf15c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 06/58] fix: commands start with the default action for SIGPIPE

---
 src/trap.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trap.rs b/src/trap.rs
index 9e74fdb..d7d2ee9 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -467,6 +467,8 @@ pub fn remove_handlers() {
         signal::sigaction(Signal::SIGTTIN, &sig_action).unwrap();
         signal::sigaction(Signal::SIGTTOU, &sig_action).unwrap();
         signal::sigaction(Signal::SIGCHLD, &sig_action).unwrap();
+        // the Rust runtime ignores this one
+        signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap();
     }
 }
 
-- 
2.43.0


From 295ff5b12a77abded639a9e65b9d0a8e07abf9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 07/58] fix: exit statuses of functions, builtins, negated
 pipelines and killed commands

Every function and builtin counted as a success, a failing builtin dropped the
rest of the list, '!' was ignored, a command killed by a signal kept the status
of the one before it and a function called by a background function ended it.
---
 src/eval.rs         | 63 ++++++++++++++++++++++++++++++---------------
 src/grammar.lalrpop |  2 +-
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index ae67d06..3b6c7de 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -119,7 +119,12 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
     //unblock interrupts
     trap::interrupts_on();
 
-    result
+    let status = result?;
+    if pipeline.bang && !pipeline.background {
+        set_exit_status((status == 0) as i32);
+    }
+
+    Ok(get_exit_code())
 }
 
 /// This does the work of eval_pipeline. It has to be called with interrupts blocked.
@@ -144,7 +149,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
     }
     
     if processes.len() == 0 {
-        return Ok(0);
+        return Ok(get_exit_code());
     }
    
     let mut remove_index: Vec<usize> = Vec::new();
@@ -163,12 +168,6 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                         std::process::exit(1);
                     }
                 }
-                if shell::get_forked() {
-                    std::process::exit(0);
-                }
-                else {
-                    set_exit_status(0);
-                }
             }
 
         }
@@ -287,11 +286,17 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 WaitStatus::Exited(_, status) => {
                     set_exit_status(status);
                 },
-                _ => (),
+                WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
+                    set_exit_status(128 + signal as i32);
+                },
+                _ => {
+                    set_exit_status(1);
+                },
             }
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
             println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+            set_exit_status(0);
         }
         else if proc_count == 0 {
             let id = {
@@ -331,6 +336,7 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
     let name = &function_definition.name;
     let body = function_definition.function_body.clone();
     shell::add_function(&name, body);
+    set_exit_status(0);
     Ok(None)
 }
 
@@ -478,13 +484,21 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
 
     let result = call_builtin(command);
 
-    if result.is_err() {
-        return Err(format!("{}", result.err().unwrap()));
-    }
-    else {
-        return Ok(None)
+    match result {
+        Ok(_) => {
+            // these leave the status of what they ran (or asked for)
+            if !matches!(command.name.as_str(), "return" | "eval" | "." | "source") {
+                set_exit_status(0);
+            }
+        },
+        // a builtin that fails has a status like any other command
+        Err(err) => {
+            eprintln!("{}", err);
+            set_exit_status(1);
+        },
     }
-    
+
+    Ok(None)
 }
 
 fn call_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCommand)>,std::io::Error> {
@@ -585,25 +599,32 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
 
     let mut function = function.unwrap().borrow().clone();
 
-    eval_compound_command(&mut function.compound_command);
+    let result = eval_compound_command(&mut function.compound_command);
     shell::pop_context();
 
-    Ok(0)//todo: change this to return the right exit code
+    match result {
+        Ok(status) => Ok(status),
+        Err(err) => {
+            eprintln!("{}", err);
+            set_exit_status(1);
+            Ok(1)
+        }
+    }
 }
 
 /// This function evaluates a CompoundCommand.
-fn eval_compound_command(command: &mut CompoundCommand) {
+fn eval_compound_command(command: &mut CompoundCommand) -> Result<i32,String> {
     match command {
         CompoundCommand::BraceGroup(bg) => {
-            eval_compound_list(&mut bg.0);
+            eval_compound_list(&mut bg.0)
         }
         _ => unimplemented!(),
     }
 }
 
 /// This function evaluates a CompoundList.
-fn eval_compound_list(compound_list: &mut CompoundList) {
-    parse_tree(&mut compound_list.0.0);
+fn eval_compound_list(compound_list: &mut CompoundList) -> Result<i32,String> {
+    parse_tree(&mut compound_list.0.0)
 }
 
 /// This function is a wraper for fork().
diff --git a/src/grammar.lalrpop b/src/grammar.lalrpop
index c71df9e..07df683 100644
--- a/src/grammar.lalrpop
+++ b/src/grammar.lalrpop
@@ -78,7 +78,7 @@ Pipeline: ast::Pipeline = {
     <ps:PipelineSeq> => ast::Pipeline{bang: false, pipe_sequence: ps, background: false},
     <bang:"bang"> <ps:PipelineSeq> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
     <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: false, pipe_sequence: ps, background: true},
-    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
+    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: true},
 }
 
 PipelineSeq: ast::PipeSequence = {
-- 
2.43.0


From 5e97ada6bdc0bdad4fb5b99e1bed19685c8956d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 08/58] fix: return leaves the function

---
 src/builtins.rs |  2 ++
 src/eval.rs     | 23 ++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 8b2d3ec..cbc4ff0 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -84,6 +84,7 @@ pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It takes a SimpleCommand with a suffix that is a string of the form 'number'.
 pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
+        eval::return_from_function();
         return Ok(());
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
@@ -91,6 +92,7 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
 
     eval::set_exit_status(code);
+    eval::return_from_function();
     Ok(())
 }
 
diff --git a/src/eval.rs b/src/eval.rs
index 3b6c7de..3070ca4 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -11,7 +11,7 @@ use std::fs::OpenOptions;
 use std::os::unix::io::AsRawFd;
 use std::mem;
 use std::env;
-use std::sync::atomic::{AtomicI32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};
 use crate::log;
 
 use std::os::unix::io::RawFd;
@@ -20,6 +20,18 @@ use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pi
 /// Stores the exit status of the last command
 pub static mut EXIT_STATUS: AtomicI32 = AtomicI32::new(0);
 
+/// How many functions are being evaluated
+static FUNCTION_DEPTH: AtomicUsize = AtomicUsize::new(0);
+/// Whether 'return' has been called in the function that is being evaluated
+static RETURNING: AtomicBool = AtomicBool::new(false);
+
+/// skips the rest of the function that is being evaluated, if there is one
+pub fn return_from_function() {
+    if FUNCTION_DEPTH.load(Ordering::Relaxed) > 0 {
+        RETURNING.store(true, Ordering::Relaxed);
+    }
+}
+
 /// gets the exit status of the last command
 pub fn get_exit_status() -> WaitStatus {
     unsafe {
@@ -63,6 +75,9 @@ fn parse_tree(list: &mut Vec<AndOr>) -> Result<i32,String> {
     for and_or in list.iter_mut() {
 
         status = eval_and_or(and_or)?;
+        if RETURNING.load(Ordering::Relaxed) {
+            break;
+        }
     } 
 
     Ok(status)
@@ -80,6 +95,9 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
     }
     else {
         let status = eval_and_or(and_or.and_or.as_mut().unwrap())?;
+        if RETURNING.load(Ordering::Relaxed) {
+            return Ok(status);
+        }
         match and_or.conditional_exec {
             Some(ConditionalExec::And) => {
                 if status != 0 {
@@ -599,7 +617,10 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
 
     let mut function = function.unwrap().borrow().clone();
 
+    FUNCTION_DEPTH.fetch_add(1, Ordering::Relaxed);
     let result = eval_compound_command(&mut function.compound_command);
+    FUNCTION_DEPTH.fetch_sub(1, Ordering::Relaxed);
+    RETURNING.store(false, Ordering::Relaxed);
     shell::pop_context();
 
     match result {
-- 
2.43.0


From cd430f78e492ad07486508210ff6c776b0861970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 09/58] fix: a function call does not use up a job id

---
 src/jobs.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jobs.rs b/src/jobs.rs
index 08b57ea..bc1c133 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -211,6 +211,7 @@ impl JobUtils<JobId> for JobControl {
         };
 
         if job.borrow().processes.len() == 0 {
+            self.update_next_job_id();
             return;
         }
 
-- 
2.43.0


From bd5c6b758c638b75134ea0a47e2025bf4b21259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 10/58] fix: survive failing to fork or to create a pipe

The processes that were started were left behind with a pipe held open by the
shell, and waiting for one that was never started waited for all the others.
---
 src/eval.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 3070ca4..2ff50ae 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -198,6 +198,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
     
 
     let proc_count;
+    let mut failure: Option<String> = None;
     // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
         let job = shell::create_job(processes, background);
     {
@@ -213,11 +214,12 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
         let mut count: usize = 0;
         proc_count = procs.len();
         for process in procs.iter_mut() {
-            pip.1 = -1;
+            pip = (-1, -1);
             if count < proc_count - 1 {
                 let pipe_result = pipe();
                 if pipe_result.is_err() {
-                    return Err("Failed to create pipe".to_string());
+                    failure = Some("Failed to create pipe".to_string());
+                    break;
                 }
                 pip = pipe_result.unwrap();
             }
@@ -277,6 +279,9 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             else if matches!(temp_fork_result, Ok(_)) {
                 shell::update_pid_table(job_id, temp_fork_result.unwrap());
             }
+            else {
+                failure = Some("Failed to fork".to_string());
+            }
             if prev_fd >= 0 {
                 close(prev_fd).unwrap();
             }
@@ -286,9 +291,19 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 Err(_) => {}
             }
 
+            if failure.is_some() {
+                break;
+            }
             count += 1;
         }
-        
+
+        if failure.is_some() {
+            // the job consists of the processes that were started, without anyone at the end of the pipe
+            procs.truncate(count);
+            if prev_fd >= 0 {
+                close(prev_fd).unwrap();
+            }
+        }
     }
         if !background && proc_count > 0 && job.borrow().processes.len() > 0{
             //eprintln!("waiting for job");
@@ -316,7 +331,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
             set_exit_status(0);
         }
-        else if proc_count == 0 {
+        else {
             let id = {
                 let job = job.borrow();
                 job.job_id
@@ -326,6 +341,11 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     //let job = temp_exec(processes)?;
 
+    if let Some(failure) = failure {
+        eprintln!("{}", failure);
+        set_exit_status(1);
+    }
+
     Ok(get_exit_code())
 }
 
-- 
2.43.0


From 2958ac8ba46cfe013547782a607317ab6a1c6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 11/58] fix: command substitution does not abort or hang the
 shell

The pipe was closed twice (abort), the output was only read after the command
had ended (hang once the pipe is full) and had to be UTF-8 (panic), and a
substitution that does not parse was a panic.
---
 src/ast.rs | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8051d66..d2b3608 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -391,23 +391,45 @@ impl SimpleCommand {
         let subshell = &chars.collect::<String>();
 
         let lexer = Lexer::new(&subshell);
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&subshell,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new()
+            .parse(&subshell,lexer) {
+                Ok(ast) => ast,
+                Err(err) => {
+                    eprintln!("Error: {:?}", err);
+                    return String::new();
+                }
+            };
 
-        let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
+        let pip: (RawFd,RawFd) = match nix::unistd::pipe() {
+            Ok(pip) => pip,
+            Err(err) => {
+                eprintln!("Failed to create pipe: {}", err);
+                return String::new();
+            }
+        };
 
-        match unsafe {nix::unistd::fork().expect("failed to fork")} {
-            nix::unistd::ForkResult::Parent { child } => {
+        match unsafe {nix::unistd::fork()} {
+            Err(err) => {
+                eprintln!("Failed to fork: {}", err);
+                nix::unistd::close(pip.0).unwrap();
+                nix::unistd::close(pip.1).unwrap();
+                String::new()
+            },
+            Ok(nix::unistd::ForkResult::Parent { child }) => {
                 nix::unistd::close(pip.1).unwrap();
-                let mut buf = String::new();
+                let mut buf = Vec::new();
+                // the file closes its end of the pipe
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
-                waitpid(child, None).unwrap();
-                file.read_to_string(&mut buf).unwrap();
-                nix::unistd::close(pip.0).unwrap();
-                buf.trim().to_string()
+                // read until the end before waiting, the child cannot finish while the pipe is full
+                let _ = file.read_to_end(&mut buf);
+                drop(file);
+                let _ = waitpid(child, None);
+                // arguments and variables cannot hold NUL bytes
+                String::from_utf8_lossy(&buf).replace('\0', "").trim().to_string()
             },
-            nix::unistd::ForkResult::Child => {
+            Ok(nix::unistd::ForkResult::Child) => {
+                shell::set_forked(true);
+                crate::jobs::fork_reset();
                 nix::unistd::dup2(pip.1, 1).unwrap();
                 nix::unistd::dup2(pip.1, 2).unwrap();
                 nix::unistd::close(pip.1).unwrap();
-- 
2.43.0


From 36d3c8b308dbdc27dd5438b52cbd72589c094768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 12/58] fix: words are expanded once, and what comes out of an
 expansion is data

Values and output that start with a quote were unquoted again, the output of a
substitution in double quotes was split (and run, if it looked like a
substitution), one that is not quoted was not run at all, a '$' in double
quotes swallowed the next character, and assignments and the names of files
were not expanded.
---
 src/ast.rs | 216 +++++++++++++++++++++++++----------------------------
 1 file changed, 100 insertions(+), 116 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index d2b3608..c4aae30 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -224,8 +224,10 @@ impl SplitWhitespaceIgnoringQuotes for str {
                         quote_type = QuoteType::Double;
                     } else if c.is_whitespace() {
                         end = i;
-                        splits.push(&self[start..end]);
-                        start = i + 1;
+                        if start < end {
+                            splits.push(&self[start..end]);
+                        }
+                        start = i + c.len_utf8();
                     }
                 }
                 QuoteType::Single => {
@@ -278,65 +280,71 @@ impl SimpleCommand {
         }
     }
 
+    /// Expands the values of the assignments and the names of the files.
     pub fn expand_vars(&mut self) {
+        let mut redirects: Vec<&mut IoRedirect> = Vec::new();
 
-        if self.prefix.is_some() {
-            for word in self.prefix.as_mut().unwrap().assignment.iter_mut() {
-                if word.contains("$") {
-                    let mut split = word.split("=");
-                    let var = split.next().unwrap();
-                    let val = split.next().unwrap();
-                    let val = match shell::expand_var(val) {
-                        Some(expanded) => {
-                            expanded
-                        }
-                        None => {
-                            val.to_string()
-                        }
-                    };
-                    *word = format!("{}={}", var, val);
+        if let Some(prefix) = self.prefix.as_mut() {
+            for word in prefix.assignment.iter_mut() {
+                if let Some((var, val)) = word.split_once('=') {
+                    *word = format!("{}={}", var, Self::expand_word(val).join(" "));
                 }
             }
+            redirects.extend(prefix.io_redirect.iter_mut());
+        }
+        if let Some(suffix) = self.suffix.as_mut() {
+            redirects.extend(suffix.io_redirect.iter_mut());
         }
 
-        if self.name.starts_with("$") {
-            let mut chars = self.name.chars();
-            chars.next();
-            match shell::expand_var(&chars.collect::<String>()) {
-                Some(name) => {
-                    self.name = name;
-                }
-                None => {}
-            }
+        for io_file in redirects.iter_mut().filter_map(|redirect| redirect.io_file.as_mut()) {
+            io_file.filename = Self::expand_word(&io_file.filename).join(" ");
         }
-        if self.suffix.is_none() {
-            return;
+    }
+
+    /// Expands a word into the words that it stands for.
+    /// What comes out of an expansion is data: it is neither expanded again nor are quotes removed from it.
+    fn expand_word(word: &str) -> Vec<String> {
+        if word.starts_with('"') || word.starts_with('\'') {
+            let mut new_word = word.to_string();
+            Self::cut_quotes(&mut new_word);
+            return vec![new_word];
         }
-        for word in self.suffix.as_mut().unwrap().word.iter_mut() {
-            if word.starts_with("$") {
-                let mut chars = word.chars();
-                chars.next();
-                match shell::expand_var(&chars.collect::<String>()) {
-                    Some(expanded) => {
-                        *word = expanded;
-                    }
-                    None => {}
-                }
-            }
+        if word.starts_with("$(") || word.starts_with('`') {
+            return Self::eval_subshell(word).split_whitespace().map(|word| word.to_string()).collect();
         }
-        /*self.suffix.as_mut().unwrap().word.iter_mut().for_each(|word| {
-            println!("word: {}", word);
-            if word.starts_with("$") {
-                match shell::expand_var(&word[1..]) {
-                    Some(expanded) => {
-                        *word = expanded;
-                    }
-                    None => {}
-                }
+        if word.starts_with('$') {
+            return match shell::expand_var(&word[1..]) {
+                Some(expanded) => vec![expanded],
+                None => vec![word.to_string()],
+            };
+        }
+        if let Some((name, value)) = word.split_once('=') {
+            if value.starts_with(|c| matches!(c, '"' | '\'' | '$' | '`')) {
+                return vec![format!("{}={}", name, Self::expand_word(value).join(" "))];
             }
-        });*/
+        }
+        vec![word.to_string()]
     }
 
+    /// Returns how much of the text is the name of a variable.
+    fn var_name_len(text: &str) -> usize {
+        if text.starts_with(|c: char| c.is_ascii_digit()) {
+            return text.len() - text.trim_start_matches(|c: char| c.is_ascii_digit()).len();
+        }
+        let mut len = 0;
+        loop {
+            let rest = &text[len..];
+            let part = rest.len() - rest.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_').len();
+            if part == 0 {
+                return len.saturating_sub(2);
+            }
+            len += part;
+            if !text[len..].starts_with("::") {
+                return len;
+            }
+            len += 2;
+        }
+    }
 
     fn create_subshell(chr: char, chars: &mut std::str::Chars) -> String {
         let mut subshell = String::new();
@@ -378,11 +386,15 @@ impl SimpleCommand {
         if subshell.starts_with("$(") {
             chars.next();
             chars.next();
-            chars.next_back();
+            if subshell.ends_with(')') {
+                chars.next_back();
+            }
         }
         else if subshell.starts_with("`"){
             chars.next();
-            chars.next_back();
+            if subshell.len() > 1 && subshell.ends_with('`') {
+                chars.next_back();
+            }
         }
         else {
             return subshell.to_string();
@@ -572,22 +584,30 @@ impl SimpleCommand {
     }
 
     fn cut_quotes(word: &mut String) {
-        let mut chars = word.chars();
-        let mut try_expand_subshell = false;
-        if chars.next() == Some('"') {
-            try_expand_subshell = true;
-        }
-        chars.next_back();
-
+        let quote = &word[0..1];
+        let inner = &word[1..];
+        let inner = inner.strip_suffix(quote).unwrap_or(inner);
 
-        if try_expand_subshell {
+        if quote == "\"" {
+            let mut chars = inner.chars();
             let mut new_word = String::new();
             while let Some(chr) = chars.next()  {
-                if chr == '$' || chr == '`' {
+                if chr == '`' || (chr == '$' && chars.as_str().starts_with('(')) {
                     let subshell = Self::create_subshell(chr,&mut chars);
                     
                     new_word = new_word + &Self::eval_subshell(&subshell);
                 }
+                else if chr == '$' {
+                    let (name, rest) = chars.as_str().split_at(Self::var_name_len(chars.as_str()));
+                    match shell::expand_var(name) {
+                        Some(expanded) => new_word.push_str(&expanded),
+                        None => {
+                            new_word.push(chr);
+                            new_word.push_str(name);
+                        }
+                    }
+                    chars = rest.chars();
+                }
                 else {
                     new_word.push(chr);
                 }
@@ -598,71 +618,35 @@ impl SimpleCommand {
             return;
         }
 
-        *word = chars.collect::<String>();
+        *word = inner.to_string();
     }
 
     pub fn eval(&mut self) {
         if self.name.as_str() == "" {
             return;
         }
-        if self.name.starts_with('\'') {
-            Self::cut_quotes(&mut self.name);
-        }
-        let mut words = Vec::new();
-        for word in self.name.split_whitespace_ig_qts().iter() {
-            if word.starts_with('"') {
-                words.append(&mut Self::eval_double_quotes(word));
-            }
-            else {
-                words.push(word.to_string());
-            }
-        }
-        self.name = words.remove(0);
-        
-        if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
-            self.suffix = Some(Suffix {
-                io_redirect: Vec::new(),
-                word: words,
-            });
-            return;
+
+        let mut words = Self::expand_word(&self.name);
+        if self.name.starts_with('$') {
+            // a variable can hold a whole command
+            words = words.iter().flat_map(|word| word.split_whitespace()).map(|word| word.to_string()).collect();
         }
-        else {
-            let mut new_words = words;
-            for word in self.suffix.as_ref().unwrap().word.iter() {
-                if word.starts_with('"') {
-                    new_words.append(&mut Self::eval_double_quotes(word));
-                }
-                else if word.starts_with('\'') {
-                    let mut new_word = word.to_string();
-                    Self::cut_quotes(&mut new_word);
-                    new_words.push(new_word);
-                }
-                else {
-                    new_words.push(word.to_string());
-                }
+        if let Some(suffix) = self.suffix.as_ref() {
+            for word in suffix.word.iter() {
+                words.append(&mut Self::expand_word(word));
             }
-            self.suffix.as_mut().unwrap().word = new_words;
         }
 
-    }
-
-    fn eval_double_quotes(word: &str) -> Vec<String> {
-        if !word.contains("$(") && !word.contains("`") {
-            let mut new_word = word.to_string();
-            Self::cut_quotes(&mut new_word);
-            return vec![new_word];
-        }
-        let mut new_word = word.to_string();
-        Self::cut_quotes(&mut new_word);
-        let mut ret = Vec::new();
-        let eval = Self::eval_subshell(&new_word);
-        if eval.contains(" ") {
-            ret.append(&mut eval.split_whitespace().map(|word| word.to_string()).collect());
-        }
-        else {
-            ret.push(eval);
+        self.name = if words.is_empty() { String::new() } else { words.remove(0) };
+        match self.suffix.as_mut() {
+            Some(suffix) => suffix.word = words,
+            None => {
+                self.suffix = Some(Suffix {
+                    io_redirect: Vec::new(),
+                    word: words,
+                });
+            }
         }
-        ret
     }
 
     /*pub fn eval_double_quotes(&mut self) {
@@ -757,11 +741,11 @@ impl SimpleCommand {
 
     pub fn argv(&self) -> Vec<CString> {
         let mut argv = Vec::new();
-        argv.push(CString::new(self.name.clone()).unwrap());
+        argv.push(CString::new(self.name.replace('\0', "")).unwrap());
         
         if self.suffix.is_some() {
             for word in self.suffix.as_ref().unwrap().word.iter() {
-                argv.push(CString::new(word.clone()).unwrap());
+                argv.push(CString::new(word.replace('\0', "")).unwrap());
             }
         }
 
-- 
2.43.0


From ed5c0f01aa8f5700ec391584f7a906fa8ef01d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 13/58] fix: every assignment of a command takes effect, with
 all of its value

Only the first one was made, values were cut at their first '=', and a name
that starts with a digit was parsed as a number for no use (panic).
---
 src/builtins.rs |  8 ++++----
 src/context.rs  | 44 ++------------------------------------------
 src/eval.rs     |  5 +++--
 3 files changed, 9 insertions(+), 48 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index cbc4ff0..ec0f9ec 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -351,9 +351,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             }
             continue;//TODO: make this read argument
         }
-        let mut split = word.split('=');
-        let key = split.next().unwrap();
-        let value = split.next().unwrap();
+        let (key, value) = word.split_once('=').unwrap();
         shell::add_var(word,0);
         env::set_var(key, &trim(value));
     }
@@ -366,7 +364,9 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
 
 
-    shell::add_var_context(command.prefix.as_ref().unwrap().assignment[0].as_str());
+    for assignment in command.prefix.as_ref().unwrap().assignment.iter() {
+        shell::add_var_context(assignment.as_str());
+    }
     Ok(())
 }
 
diff --git a/src/context.rs b/src/context.rs
index 7609ece..9fcca9a 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -518,45 +518,24 @@ impl ContextUtils<&str> for Context {
     /// * `var` - The &str set that is to be added to the context.
     fn add_var(&mut self, var: &str) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
-            (split.next().unwrap(), split.next().unwrap())
+            var.split_once("=").unwrap()
         } else {
             (var, "")
         };
 
         let var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
 
         self.add_var(var_struct);
     }
 
     fn add_var_readonly(&mut self, var: &str) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
-            (split.next().unwrap(), split.next().unwrap())
+            var.split_once("=").unwrap()
         } else {
             (var, "")
         };
 
         let mut var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
 
         var_struct.readonly = true;
         
@@ -573,16 +552,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var(&mut self, (name, value): (&str, &str)) {
         let var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
-
         self.add_var(var_struct);
     }
 
@@ -590,15 +559,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var_readonly(&mut self, (name, value): (&str, &str)) {
         let mut var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
         var_struct.readonly = true;
 
         self.add_var(var_struct);
diff --git a/src/eval.rs b/src/eval.rs
index 2ff50ae..017aa6a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -432,8 +432,9 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
-        let assign = assign.split('=').collect::<Vec<&str>>();
-        env::set_var(&assign[0], &assign[1]);
+        if let Some((name, value)) = assign.split_once('=') {
+            env::set_var(name, value);
+        }
     }
 }
 
-- 
2.43.0


From 7291771a1432df815662584b1f8c629ee7b8b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 14/58] fix: quotes are removed once

Values were unquoted when a word was evaluated and again when they were stored,
so a value that itself starts and ends with a quote lost them.
---
 src/builtins.rs | 15 +--------------
 src/context.rs  | 30 ++++--------------------------
 src/shell.rs    | 19 ++-----------------
 3 files changed, 7 insertions(+), 57 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index ec0f9ec..3b0bd36 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -31,19 +31,6 @@ enum IdType {
     Jid,
 }
 
-/// This function trims quotes off of its input.
-fn trim(word: &str) -> String {
-    if (word.starts_with("\"") && word.ends_with("\"")) || (word.starts_with("'") && word.ends_with("'")){
-        let mut chars = word.chars();
-        chars.next();
-        chars.next_back();
-        chars.collect::<String>()
-    }
-    else {
-        word.to_string()
-    }
-}
-
 /// This function is the 'cd' command of the shell.
 /// We use the env::set_current_dir function to change the current directory.
 /// this needs to change several variables when changing but for now we won't care
@@ -353,7 +340,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         }
         let (key, value) = word.split_once('=').unwrap();
         shell::add_var(word,0);
-        env::set_var(key, &trim(value));
+        env::set_var(key, value);
     }
 
     Ok(())
diff --git a/src/context.rs b/src/context.rs
index 9fcca9a..e92ea11 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -477,28 +477,6 @@ impl Context {
             self.readonly_functions.insert(name.to_string());
         }
     }
-
-    /// Internal function that removes quotes from a string.
-    /// # Arguments
-    /// * `word` - The &str to remove quotes from.
-    /// # Example
-    /// ```
-    /// use shell::context::Context;
-    /// let word = "\"hello\"";
-    /// let trimmed = Context::trim(word);
-    /// assert_eq!(trimmed, "hello");
-    /// ```
-    fn trim(word: &str) -> String {
-        if (word.starts_with("\"") && word.ends_with("\"")) || (word.starts_with("'") && word.ends_with("'")){
-            let mut chars = word.chars();
-            chars.next();
-            chars.next_back();
-            chars.collect::<String>()
-        }
-        else {
-            word.to_string()
-        }
-    }
 }
 
 impl Default for Context {
@@ -523,7 +501,7 @@ impl ContextUtils<&str> for Context {
             (var, "")
         };
 
-        let var_struct = Var::new(name, &Self::trim(value));
+        let var_struct = Var::new(name, value);
 
         self.add_var(var_struct);
     }
@@ -535,7 +513,7 @@ impl ContextUtils<&str> for Context {
             (var, "")
         };
 
-        let mut var_struct = Var::new(name, &Self::trim(value));
+        let mut var_struct = Var::new(name, value);
 
         var_struct.readonly = true;
         
@@ -550,14 +528,14 @@ impl ContextUtils<(&str, &str)> for Context {
     /// # Arguments
     /// * `var` - A tuple of &str to be add to the context.
     fn add_var(&mut self, (name, value): (&str, &str)) {
-        let var_struct = Var::new(name, &Self::trim(value));
+        let var_struct = Var::new(name, value);
 
         self.add_var(var_struct);
     }
 
 
     fn add_var_readonly(&mut self, (name, value): (&str, &str)) {
-        let mut var_struct = Var::new(name, &Self::trim(value));
+        let mut var_struct = Var::new(name, value);
 
         var_struct.readonly = true;
 
diff --git a/src/shell.rs b/src/shell.rs
index 2aa502b..fe4ffc2 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -331,19 +331,6 @@ impl Shell {
     pub fn remove_function(&mut self, name: &str) {
 	    self.context_manager.remove_function(name);
     }
-
-    /// This is an internal function that trims off the quotes from a string.
-    fn trim(word: &str) -> String {
-        if (word.starts_with("\"") && word.ends_with("\"")) || (word.starts_with("'") && word.ends_with("'")){
-            let mut chars = word.chars();
-            chars.next();
-            chars.next_back();
-            chars.collect::<String>()
-        }
-        else {
-            word.to_string()
-        }
-    }
 }
 
 /// This is an implementation of the ShellJobUtils trait for the Shell struct.
@@ -381,14 +368,13 @@ impl ShellAliasUtils<&str> for Shell {
     /// This variant takes in a string that contains and equal sign ('=').
     /// The string is split into two parts and the first part is used as the alias name
     /// and the second part is used as the alias value.
-    /// We cut off the quotes in the value if they exist.
     fn add_alias(&mut self, input: &str) {
         let split = input.split('=').collect::<Vec<&str>>();
         if split.len() != 2 {
             eprintln!("Invalid alias");
             return;
         }
-        self.aliases.insert(split[0].to_string(), Self::trim(split[1]));
+        self.aliases.insert(split[0].to_string(), split[1].to_string());
     }
 }
 
@@ -401,9 +387,8 @@ impl ShellAliasUtils<(&str, &str)> for Shell {
     /// removed before calling this variant.
     /// The first part of the tuple is used as the alias name
     /// and the second part is used as the alias value.
-    /// We cut off the quotes in the value if they exist.
     fn add_alias(&mut self, (alias, value): (&str, &str)) {
-        self.aliases.insert(alias.to_string(), Self::trim(value));
+        self.aliases.insert(alias.to_string(), value.to_string());
     }
 }
 
-- 
2.43.0


From 1fdde347e8009f750096c028e8795a67639208ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 15/58] fix: accept comments, blank lines, '=' and keywords
 wherever a shell does

A blank line, indented comment or ';' before a newline made the input a syntax
error, as did keywords used as arguments and values with a second '='; an
argument that is or starts with '=' was glued to the one before it.
---
 src/grammar.lalrpop | 35 ++++++++++++++++++++++++++++++++---
 src/lexer.rs        | 13 ++++++++++++-
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/grammar.lalrpop b/src/grammar.lalrpop
index 07df683..e22389c 100644
--- a/src/grammar.lalrpop
+++ b/src/grammar.lalrpop
@@ -35,6 +35,8 @@ extern {
         "for"           => lexer::Token::For,
         "in"            => lexer::Token::In,
         "if"            => lexer::Token::If,
+        "then"          => lexer::Token::Then,
+        "fi"            => lexer::Token::Fi,
         "else"          => lexer::Token::Else,
         "elif"          => lexer::Token::Elif,
         "while"         => lexer::Token::While,
@@ -51,7 +53,8 @@ extern {
 }
 
 pub CompleteCommand: ast::CompleteCommand = {
-    <sep:Separator> <lst:List> => ast::CompleteCommand{list: Some(lst)},
+    <nl:"newline_list"> <lst:List> <sep:Separator> => ast::CompleteCommand{list: Some(lst)},
+    <nl:"newline_list"> <lst:List> => ast::CompleteCommand{list: Some(lst)},
     <lst:List> <sep:Separator> => ast::CompleteCommand{list: Some(lst)},
     <lst:List> => ast::CompleteCommand{list: Some(lst)},
     <sep:Separator> => ast::CompleteCommand{list: None},
@@ -155,7 +158,7 @@ Prefix: ast::Prefix = {
 Suffix: ast::Suffix = {
     <ior:IORedirect> => ast::Suffix{io_redirect: vec![ior], word: Vec::new()},
     <cmdsf:Suffix> <ior:IORedirect> => {let mut ncmdsf = cmdsf.clone(); ncmdsf.io_redirect.push(ior); ncmdsf},
-    <word:"Word"> => ast::Suffix{io_redirect: Vec::new(), word: vec![word.to_string()]},
+    <word:Word> => ast::Suffix{io_redirect: Vec::new(), word: vec![word.to_string()]},
     <cmdsf:Suffix> <word:Word> => {let mut ncmdsf = cmdsf.clone(); ncmdsf.word.push(word.to_string()); ncmdsf},
     <asm:Assignment> => ast::Suffix{io_redirect: Vec::new(), word: vec![asm]},
     <cmdsf:Suffix> <asm:Assignment> => {let mut ncmdsf = cmdsf.clone(); ncmdsf.word.push(asm); ncmdsf},
@@ -177,8 +180,13 @@ RedirectList: ast::RedirectList = {
     <rl:RedirectList> <ior:IORedirect> => {let mut nrl = rl; nrl.0.push(ior); nrl},
 }
 
+AssignmentValue: String = {
+    <word:Word> => word,
+    <val:AssignmentValue> <eq:"="> <word:Word> => val + "=" + word.as_str(),
+}
+
 Assignment: String = {
-    <var:"Word"> <eq:"="> <val:Word> => {
+    <var:"Word"> <eq:"="> <val:AssignmentValue> => {
         let mut s = String::from(var);
         s.push_str("=");
         s.push_str(val.as_str());
@@ -199,10 +207,29 @@ CmdWord: String = {
 Word: String = {
     <word:"Word"> => word.to_string(),
     <word:Subshell> => word,
+    <word:Keyword> => word.to_string(),
+}
+
+// these are only special where a command is expected
+Keyword: &'static str = {
+    "for" => "for",
+    "in" => "in",
+    "while" => "while",
+    "until" => "until",
+    "if" => "if",
+    "then" => "then",
+    "else" => "else",
+    "elif" => "elif",
+    "fi" => "fi",
+    "do" => "do",
+    "done" => "done",
+    "case" => "case",
+    "esac" => "esac",
 }
 
 CmdSepOp: String = {
     <sep:";"> => ";".to_string(),
+    <sep:";"> <nl:"newline_list"> => ";\n".to_string(),
     <nl:"newline_list"> => "\n".to_string(),
 }
 CmdBackgroundOp: String = {
@@ -211,6 +238,8 @@ CmdBackgroundOp: String = {
 
 Separator: String = {
     <sep:";"> => ";".to_string(),
+    <sep:";"> <nl:"newline_list"> => ";\n".to_string(),
+    <sep:";"> <nl:"newline_list"> <eof:"EOF"> => ";\n".to_string(),
     <sep:";"> <nl:"newline_list"> <nl2:"newline_list"> => ";\n".to_string(),
     <sep:";"> <nl:"newline_list"> <nl2:"newline_list"> <eof:"EOF"> => ";\n".to_string(),
     <nl:"newline_list"> => "\n".to_string(),
diff --git a/src/lexer.rs b/src/lexer.rs
index 4e0943d..18b0f0e 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -225,6 +225,11 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => Some(Ok((start, Token::Less, end))),
                     }
                 },
+                // this is only part of an assignment if it comes right after a name
+                '=' if self.input[..start].ends_with(char::is_whitespace) => {
+                    let (word, end) = self.take_while(start, end, |chr| chr == '=' || is_word_continue(chr));
+                    Some(Ok((start, Token::Word(word), end)))
+                },
                 '=' => Some(Ok((start, Token::Equals, end))),
                 '"' => Some(self.double_quote(start, end)),
                 '\'' => Some(self.single_quote(start, end)),
@@ -346,10 +351,16 @@ impl<'input> Lexer<'input> {
     }
 
     fn newline_list(&mut self, start: usize, end: usize) -> Result<(usize, Token<'input>, usize), Error> {
+        // blank lines and comments are part of the list
         while let Some((_, chr, _)) = self.lookahead {
             //eprintln!("chr: {}", chr);
             match chr {
-                '\n' => self.advance(),
+                '#' => {
+                    self.take_until(start, end, |chr| chr == '\n');
+                },
+                chr if chr.is_whitespace() => {
+                    self.advance();
+                },
                 _ => break,
             };
         }
-- 
2.43.0


From 80167828f035da72875c784d5b01d84c09e1aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 16/58] fix: redirects truncate, apply to the file descriptor
 they name and report what they cannot open

'>' left the rest of a longer file behind, '2>' redirected stdout, a file that
cannot be opened was a panic and so was a redirect without a command.
---
 src/builtins.rs |  1 +
 src/eval.rs     | 82 ++++++++++++++++++++++++++++++-------------------
 2 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 3b0bd36..12f8273 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -351,6 +351,7 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
 
 
+    eval::open_redirects(&command.prefix.as_ref().unwrap().io_redirect)?;
     for assignment in command.prefix.as_ref().unwrap().assignment.iter() {
         shell::add_var_context(assignment.as_str());
     }
diff --git a/src/eval.rs b/src/eval.rs
index 017aa6a..972f67c 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -6,8 +6,9 @@ use crate::builtins;
 use crate::shell;
 use crate::trap;
 use nix::errno::Errno;
+use nix::fcntl::{fcntl, FcntlArg, FdFlag};
 use nix::sys::wait::WaitStatus;
-use std::fs::OpenOptions;
+use std::fs::{File, OpenOptions};
 use std::os::unix::io::AsRawFd;
 use std::mem;
 use std::env;
@@ -438,46 +439,65 @@ fn eval_assignment(assignment: &Vec<String>) {
     }
 }
 
+/// This function opens the file of an IoRedirect.
+fn open_redirect(io_file: &IoFile) -> std::io::Result<File> {
+    match &io_file.redirect_type {
+        RedirectType::Input => {
+            OpenOptions::new()
+                .read(true)
+                .open(&io_file.filename)
+        },
+        RedirectType::Append => {
+            OpenOptions::new()
+                .write(true)
+                .append(true)
+                .create(true)
+                .open(&io_file.filename)
+        },
+        RedirectType::Output | RedirectType::Clobber => {
+            OpenOptions::new()
+                .write(true)
+                .create(true)
+                .truncate(true)
+                .open(&io_file.filename)
+        },
+    }
+}
+
 /// This function evaluates an IoRedirect in a SimpleCommand's Prefix or Suffix.
 fn eval_redirect(redirect: &Vec<IoRedirect>) {
     for redir in redirect.iter() {
         if redir.io_file.is_some() {
             let io_file = redir.io_file.as_ref().unwrap();
-            match &io_file.redirect_type {
-                RedirectType::Input => {
-                    let file = OpenOptions::new()
-                        .read(true)
-                        .open(&io_file.filename)
-                        .unwrap();
-                    
-                    dup2(file.as_raw_fd(), 0).unwrap();
-                    mem::forget(file);
-                },
-                RedirectType::Output => {
-                    let file = OpenOptions::new()
-                        .write(true)
-                        .create(true)
-                        .open(&io_file.filename)
-                        .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
-                    mem::forget(file);
-                },
-                RedirectType::Append => {
-                    let file = OpenOptions::new()
-                        .write(true)
-                        .append(true)
-                        .create(true)
-                        .open(&io_file.filename)
-                        .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
-                    mem::forget(file);
-                },
-                _ => (),
+            let file = match open_redirect(io_file) {
+                Ok(file) => file,
+                Err(err) => {
+                    eprintln!("{}: {}", io_file.filename, err);
+                    std::process::exit(1);
+                }
+            };
+            let default = if io_file.redirect_type == RedirectType::Input {0} else {1};
+            let fd = redir.io_number.unwrap_or(default);
+            if file.as_raw_fd() == fd {
+                // nothing to duplicate, but the command has to get it
+                fcntl(fd, FcntlArg::F_SETFD(FdFlag::empty())).unwrap();
+            }
+            else {
+                dup2(file.as_raw_fd(), fd).unwrap();
             }
+            mem::forget(file);
         }
     }
 }
 
+/// This function evaluates the redirects of a SimpleCommand that has nothing to run.
+pub fn open_redirects(redirect: &Vec<IoRedirect>) -> std::io::Result<()> {
+    for io_file in redirect.iter().filter_map(|redir| redir.io_file.as_ref()) {
+        open_redirect(io_file)?;
+    }
+    Ok(())
+}
+
 /// This function checks if a command is a shell builtin.
 fn check_if_builtin(cmd_name: &str) -> bool {
     match cmd_name {
-- 
2.43.0


From d02368e35b941f5b4aca256c62413cfeace3ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 17/58] fix: signals act on background functions like on other
 commands

---
 src/eval.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 972f67c..5f49995 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -255,6 +255,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 //println!("executing: {:?}", process.argv);
                 
                 if shell::is_function(&commands[count].name) {
+                    // signals act on it like on any other command
+                    jobs::fork_reset();
                     let result = eval_function(&mut commands[count]);
                     
                     match result {
-- 
2.43.0


From 7a5d325d1b3ba1e24a527cdebadc7d51cf6294dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 18/58] fix: the arguments of a function are its own, and taken
 as they are

Calling a function overwrote the parameters of its caller, cut arguments at '='
and dropped everything from an '&' on.
---
 src/eval.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 5f49995..d383b96 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -5,6 +5,7 @@ use crate::jobs;
 use crate::builtins;
 use crate::shell;
 use crate::trap;
+use crate::context::{ContextUtils, Var};
 use nix::errno::Errno;
 use nix::fcntl::{fcntl, FcntlArg, FdFlag};
 use nix::sys::wait::WaitStatus;
@@ -645,16 +646,13 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     //eprintln!("{:?}", function.clone().unwrap());
     //eprintln!("{:?}", command);
     shell::push_context_new();
-    shell::add_var_context(&format!("0={}", command.name));
+    let context = shell::get_current_context();
+    context.borrow_mut().add_var(Var::new("0", &command.name));
     //eprintln!("0={}", command.name);
     if command.suffix.is_some() {
         let suffix = command.suffix.as_ref().unwrap();
         for (i, arg) in suffix.word.iter().enumerate() {
-            if arg == "&" {
-                break;
-            }
-            //eprintln!("{}={}", i+1, arg);
-            shell::add_var_context(&format!("{}={}", i+1, arg));
+            context.borrow_mut().add_var(Var::new(&(i+1).to_string(), arg));
         }
     }
 
-- 
2.43.0


From c9ffed7a22cfb499adf25a5375d3b8e2bdacbf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 19/58] fix: builtins report missing and invalid arguments, and
 an argument with a dash in it is no flag

---
 src/builtins.rs | 61 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 12f8273..7603329 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -31,6 +31,13 @@ enum IdType {
     Jid,
 }
 
+/// This function parses the argument of 'exit' and 'return'.
+fn parse_status(word: &str) -> Result<i32, std::io::Error> {
+    word.parse::<i32>().map_err(|_| {
+        std::io::Error::new(std::io::ErrorKind::Other, format!("{}: numeric argument required", word))
+    })
+}
+
 /// This function is the 'cd' command of the shell.
 /// We use the env::set_current_dir function to change the current directory.
 /// this needs to change several variables when changing but for now we won't care
@@ -38,8 +45,8 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
     
     trap::interrupts_off();
     let path;
-    if command.suffix.is_none() {
-        path = env::var("HOME").unwrap();
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
+        path = env::var("HOME").unwrap_or_default();
     } else {
         path = command.suffix.as_ref().unwrap().word[0].to_string();
     }
@@ -53,15 +60,16 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// By default it will exit with a status code of 0, but if the user specifies a status code
 /// it will exit with that status code.
 pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    shell::save_history();
     if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
+        shell::save_history();
         let exit_code = eval::get_exit_code();
         exit(exit_code);
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = parse_status(&command.suffix.as_ref().unwrap().word[0])?;
 
+    shell::save_history();
     exit(code);
 }
 
@@ -76,7 +84,7 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = parse_status(&command.suffix.as_ref().unwrap().word[0])?;
 
     eval::set_exit_status(code);
     eval::return_from_function();
@@ -97,16 +105,16 @@ pub fn jobs() -> Result<(), std::io::Error> {
 pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
     let id;
     let id_type;
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].chars().nth(0).unwrap() == '%' {
-        let mut chars = command.suffix.as_ref().unwrap().word[0].chars();
-        chars.next();
-        id = chars.as_str().parse().unwrap();
+    let word = command.suffix.as_ref().unwrap().word[0].as_str();
+    let invalid = |_| std::io::Error::new(std::io::ErrorKind::Other, format!("{}: not a job", word));
+    if let Some(jid) = word.strip_prefix('%') {
+        id = jid.parse().map_err(invalid)?;
         id_type = IdType::Jid;
     } else {
-        id = command.suffix.as_ref().unwrap().word[0].parse::<u32>().unwrap();
+        id = word.parse::<u32>().map_err(invalid)?;
         id_type = IdType::Pid;
     }
 
@@ -195,11 +203,11 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
 /// If the suffix is empty, it will print out all of the current aliases.
 /// If the suffix is '-p', it will print out all of the current aliases.
 pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         shell::display_aliases();
         return Ok(());
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-p") {
+    if command.suffix.as_ref().unwrap().word[0] == "-p" {
         shell::display_aliases();
         return Ok(());
     }
@@ -219,13 +227,13 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It takes a SimpleCommand with a suffix that is a string of the form 'alias'.
 /// If the suffix is '-a', it will remove all of the current aliases.
 pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias needs an argument"));
     }
     if command.suffix.as_ref().unwrap().word.len() > 1 {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias only takes one argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-a") {
+    if command.suffix.as_ref().unwrap().word[0] == "-a" {
         shell::clear_aliases();
         return Ok(());
     }
@@ -277,7 +285,7 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is a file, it will evaluate the as a new context and export it.
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0].contains("-p") {
+    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0] == "-p" {
         env::vars().for_each(|(key, value)| {
             println!("{}={}", key, value);
         });
@@ -363,7 +371,7 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It evaluates a string as a command.
 /// It takes a SimpleCommand with a suffix that is a string of the form 'string'.
 pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "eval needs an argument"));
     }
 
@@ -393,7 +401,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'pwd' command of the shell.
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
-    let path = env::current_dir().unwrap();
+    let path = env::current_dir()?;
     println!("{}", path.display());
     Ok(())
 }
@@ -411,7 +419,7 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     let mut flags = Flags::Variable;
     let mut pos = 0;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
 	if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
 	    flags = Flags::Function;
 	    pos = 1;
@@ -428,6 +436,9 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 	    return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset: invalid option"));
 	}
     }
+    if command.suffix.as_ref().unwrap().word.len() == pos {
+	return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset needs an argument"));
+    }
 
     match flags {
         Flags::Variable => {
@@ -454,7 +465,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
     let mut flags = Flags::Variable;
     let mut pos = 0;
     let mut print = false;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
         if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
             flags = Flags::Function;
             pos = 1;
@@ -475,7 +486,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
         }
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word.get(pos).map_or(false, |word| word.starts_with('-')) {
         if command.suffix.as_ref().unwrap().word[pos].as_str().contains('p') {
             print = true;
             pos += 1;
@@ -546,7 +557,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut rename = false;
     let mut pos = 0;
     
-    if suffix.word[0].contains('-') {
+    if suffix.word[0].starts_with('-') {
         if suffix.word[0].contains('c') {
             empty_env = true;
             pos = 1;
@@ -563,7 +574,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
             }
         }
     }
-    if suffix.word[pos].contains('-') {
+    if pos > 0 && suffix.word.get(pos).map_or(false, |word| word.starts_with('-')) {
         if suffix.word[pos].contains('c') {
             empty_env = true;
             pos += 1;
@@ -581,6 +592,10 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         }
     }
 
+    if suffix.word.len() <= pos {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec needs an argument"));
+    }
+
     log!("empty_env: {}, dash: {}, rename: {}, pos: {}", empty_env, dash, rename, pos);
 
     let mut args = Vec::new();
-- 
2.43.0


From ece04bbc9a3666787d82f479a775de493943fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 20/58] fix: eval evaluates all of its arguments

---
 src/builtins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 7603329..f4c9861 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -376,7 +376,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
 
 
-    let string = command.suffix.as_ref().unwrap().word[0].as_str().to_string() + "\n";
+    let string = command.suffix.as_ref().unwrap().word.join(" ") + "\n";
     
     let mut lexer = Lexer::new(string.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(string.as_str(),lexer) {
-- 
2.43.0


From 4887117d82f7d5e912d977fc4e0a06a6bd083fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 21/58] fix: fg and bg resume what is left of a job, and fg has
 the status of the job

---
 src/builtins.rs | 16 ++++------------
 src/eval.rs     | 28 ++++++++++++++++------------
 src/jobs.rs     | 12 ++++++++++++
 3 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index f4c9861..8212f8b 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -7,8 +7,6 @@ use std::io::Write;
 use crate::ast::SimpleCommand;
 use crate::shell;
 use nix::unistd::Pid;
-use nix::sys::signal::kill;
-use nix::sys::signal::Signal;
 use std::ffi::CString;
 use crate::jobs;
 use crate::trap;
@@ -152,15 +150,13 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     }
     
     
-    job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = false;
+    job.as_ref().unwrap().borrow_mut().resume();
 
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
-    }
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
-    jobs::wait_for_job(job);
+    let status = jobs::wait_for_job(job);
+    eval::set_wait_status(status);
     Ok(())
 }
 
@@ -185,12 +181,8 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
             }
         }
     }
-    job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = true;
-    
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
-    }
+    job.as_ref().unwrap().borrow_mut().resume();
 
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
diff --git a/src/eval.rs b/src/eval.rs
index d383b96..ce91a75 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -46,6 +46,20 @@ pub fn set_exit_status(status: i32) {
         EXIT_STATUS.store(status, Ordering::Relaxed);
     }
 }
+/// sets the exit status of the last command from what waiting for it returned
+pub fn set_wait_status(status: WaitStatus) {
+    match status {
+        WaitStatus::Exited(_, status) => {
+            set_exit_status(status);
+        },
+        WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
+            set_exit_status(128 + signal as i32);
+        },
+        _ => {
+            set_exit_status(1);
+        },
+    }
+}
 /// gets the exit code of the last command
 pub fn get_exit_code() -> i32 {
     unsafe {
@@ -319,17 +333,7 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             }
             shell::delete_job(id);
 
-            match status {
-                WaitStatus::Exited(_, status) => {
-                    set_exit_status(status);
-                },
-                WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
-                    set_exit_status(128 + signal as i32);
-                },
-                _ => {
-                    set_exit_status(1);
-                },
-            }
+            set_wait_status(status);
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
             println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
@@ -549,7 +553,7 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
     match result {
         Ok(_) => {
             // these leave the status of what they ran (or asked for)
-            if !matches!(command.name.as_str(), "return" | "eval" | "." | "source") {
+            if !matches!(command.name.as_str(), "return" | "eval" | "." | "source" | "fg") {
                 set_exit_status(0);
             }
         },
diff --git a/src/jobs.rs b/src/jobs.rs
index bc1c133..50ac729 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -383,6 +383,18 @@ impl Job {
         }
     }
 
+    /// This method makes the processes of the job that have not terminated continue.
+    pub fn resume(&mut self) {
+        self.state = JobState::Running;
+        self.stop_status = WaitStatus::StillAlive;
+        for process in &mut self.processes {
+            if matches!(process.status, None | Some(WaitStatus::Stopped(_, _))) {
+                process.status = None;
+                let _ = signal::kill(process.pid, signal::SIGCONT);
+            }
+        }
+    }
+
     /// This method sets the status of a process in the job via the pid.
     pub fn set_process_status(&mut self, pid: Pid, status: WaitStatus) {
         for process in &mut self.processes {
-- 
2.43.0


From 7afa6470b107c0f0adba6b6cd50b18f73c06db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 22/58] fix: readonly variables can be listed, and are neither
 overwritten nor removed

---
 src/builtins.rs | 10 +++++++---
 src/context.rs  | 44 +++++++++++++++++++++++++++++---------------
 src/shell.rs    | 16 ++++++++++++----
 3 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 8212f8b..23de5f0 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -339,6 +339,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             continue;//TODO: make this read argument
         }
         let (key, value) = word.split_once('=').unwrap();
+        if shell::is_readonly_var(key) {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: readonly variable", key)));
+        }
         shell::add_var(word,0);
         env::set_var(key, value);
     }
@@ -504,7 +507,6 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
                     },
                     _ => {},
                 }
-                shell::print_readonly_vars();
             },
             Flags::Function => {
                 shell::print_readonly_functions();
@@ -529,8 +531,10 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
         return Ok(());
     }
     
-    shell::set_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str());
-
+    let name = command.suffix.as_ref().unwrap().word[pos].as_str();
+    if !shell::set_readonly_var(name) {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("readonly: {}: no such variable", name)));
+    }
 
     Ok(())
 
diff --git a/src/context.rs b/src/context.rs
index e92ea11..3f9c4c7 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -47,7 +47,7 @@ impl Var {
 }*/
 impl Display for Var {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.to_string())
+        write!(f, "{}={}", self.name, self.value)
     }
 }
 
@@ -142,12 +142,17 @@ impl ContextManager {
             let context_name = split.next().unwrap();
             let var_name = split.next().unwrap();
             if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().remove_var(var_name);
+                if !context.borrow().is_readonly_var(var_name) {
+                    context.borrow_mut().remove_var(var_name);
+                }
             }
         }
         else {
             for context in self.context_stack.iter().rev() {
                 if context.borrow().get_var(name).is_some() {
+                    if context.borrow().is_readonly_var(name) {
+                        return;
+                    }
                     context.borrow_mut().remove_var(name);
                     return;
                 }
@@ -252,20 +257,22 @@ impl ContextManager {
         self.get_context().borrow_mut().add_var(set);
     }
     pub fn add_var_readonly(&mut self, set: &str) {
-        if set.contains("::") {
-            let mut split = set.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
+        let mut split = set.split("=");
+        let name = split.next().unwrap();
+        if let Some((context_name, var_name)) = name.split_once("::") {
             if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().add_var_readonly(var_name);
+                if !context.borrow().is_readonly_var(var_name) {
+                    context.borrow_mut().add_var_readonly(&set[context_name.len() + 2..]);
+                }
             }
             return;
         }
-        let mut split = set.split("=");
-        let name = split.next().unwrap();
 
         for context in self.context_stack.iter_mut().rev() {
             if context.borrow().get_var(name).is_some() {
+                if context.borrow().is_readonly_var(name) {
+                    return;
+                }
                 context.borrow_mut().add_var_readonly(set);
                 return;
             }
@@ -273,24 +280,27 @@ impl ContextManager {
         self.get_context().borrow_mut().add_var_readonly(set);
     }
 
-    pub fn set_var_readonly(&mut self, name: &str) {
+    /// Makes a variable readonly. Returns false if there is no such variable.
+    pub fn set_var_readonly(&mut self, name: &str) -> bool {
         if name.contains("::") {
             let mut split = name.split("::");
             let context_name = split.next().unwrap();
             let var_name = split.next().unwrap();
-            if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().get_var(var_name).unwrap().borrow_mut().readonly = true;
+            let var = self.get_context_by_name(context_name).and_then(|context| context.borrow().get_var(var_name));
+            if let Some(var) = var {
+                var.borrow_mut().readonly = true;
+                return true;
             }
-            return;
+            return false;
         }
         for context in self.context_stack.iter_mut().rev() {
             let mut var = context.borrow_mut().get_var(name);
             if var.is_some() {
                 var.unwrap().borrow_mut().readonly = true;
-                return;
+                return true;
             }
         }
-        self.get_context().borrow_mut().get_var(name).unwrap().borrow_mut().readonly = true;
+        false
     }
 
     /// Adds a variable to a particular context on the stack.
@@ -448,6 +458,10 @@ impl Context {
     pub fn get_var(&self, name: &str) -> Option<Rc<RefCell<Var>>> {
         self.vars.get(name).cloned()
     }
+    /// Checks if there is a readonly variable with a given name in the context.
+    pub fn is_readonly_var(&self, name: &str) -> bool {
+        self.get_var(name).map_or(false, |var| var.borrow().readonly)
+    }
     /// Removes a variable from the context with a given name.
     pub fn remove_var(&mut self, name: &str) {
         self.vars.remove(name);
diff --git a/src/shell.rs b/src/shell.rs
index fe4ffc2..49e9576 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -282,8 +282,11 @@ impl Shell {
     pub fn add_var_readonly(&mut self, set: &str) {
         self.context_manager.add_var_readonly(set);
     }
-    pub fn set_var_readonly(&mut self, var: &str) {
-        self.context_manager.set_var_readonly(var);
+    pub fn set_var_readonly(&mut self, var: &str) -> bool {
+        self.context_manager.set_var_readonly(var)
+    }
+    pub fn is_var_readonly(&self, var: &str) -> bool {
+        self.context_manager.get_var(var).map_or(false, |var| var.borrow().readonly)
     }
     pub fn all_readonly_vars(&self) -> BTreeMap<String, Rc<RefCell<crate::context::Var>>> {
         self.context_manager.all_readonly_vars()
@@ -612,9 +615,14 @@ pub fn add_readonly_var(var: &str) {
     let mut shell = SHELL.get().borrow_mut();
     shell.add_var_readonly(var);
 }
-pub fn set_readonly_var(name: &str) {
+pub fn set_readonly_var(name: &str) -> bool {
     let mut shell = SHELL.get().borrow_mut();
-    shell.set_var_readonly(name);
+    shell.set_var_readonly(name)
+}
+/// This function checks if a name is the name of a readonly variable.
+pub fn is_readonly_var(name: &str) -> bool {
+    let shell = SHELL.get().borrow();
+    shell.is_var_readonly(name)
 }
 pub fn remove_var(var: &str) {
     let mut shell = SHELL.get().borrow_mut();
-- 
2.43.0


From d4e1e719bc4c42bf5edc178537c15a89beb263b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 23/58] fix: the environment follows the exported variables

---
 src/builtins.rs | 19 ++++++++++++-------
 src/context.rs  | 36 +++++++++++++++++++++++++++++-------
 src/eval.rs     |  2 +-
 src/shell.rs    |  9 +++++++++
 4 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 23de5f0..bf0ae41 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -8,6 +8,7 @@ use crate::ast::SimpleCommand;
 use crate::shell;
 use nix::unistd::Pid;
 use std::ffi::CString;
+use std::os::unix::ffi::OsStrExt;
 use crate::jobs;
 use crate::trap;
 use crate::eval;
@@ -278,8 +279,8 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0] == "-p" {
-        env::vars().for_each(|(key, value)| {
-            println!("{}={}", key, value);
+        env::vars_os().for_each(|(key, value)| {
+            println!("{}={}", key.to_string_lossy(), value.to_string_lossy());
         });
         return Ok(());
     }
@@ -333,8 +334,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
                 }
             }
             else {
-                let temp = format!("{}={}",word,var.unwrap());
-                shell::get_env_context().borrow_mut().add_var(temp.as_str());
+                shell::export_var(word, &var.unwrap());
             }
             continue;//TODO: make this read argument
         }
@@ -342,8 +342,13 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         if shell::is_readonly_var(key) {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: readonly variable", key)));
         }
-        shell::add_var(word,0);
-        env::set_var(key, value);
+        if key.is_empty() {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: not a valid name", word)));
+        }
+        if shell::expand_var(key).is_some() {
+            shell::add_var_context(word);
+        }
+        shell::export_var(key, value);
     }
 
     Ok(())
@@ -632,7 +637,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         Vec::new()
     }
     else {
-        env::vars().map(|(k, v)| CString::new(k + "=" + &v).unwrap()).collect()
+        env::vars_os().map(|(k, v)| CString::new([k.as_bytes(), b"=", v.as_bytes()].concat()).unwrap()).collect()
     };
 
     
diff --git a/src/context.rs b/src/context.rs
index 3f9c4c7..82118d1 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -35,8 +35,11 @@ impl Var {
         self.readonly = true;
     }
 
-    /// Adds an variable to the environment
-    fn export(&mut self) {
+    /// Adds an variable to the environment, unless it is something that the environment cannot hold
+    pub fn export(&mut self) {
+        if self.name.is_empty() || self.name.contains(['=', '\0']) || self.value.contains('\0') {
+            return;
+        }
         env::set_var(&self.name, &self.value);
     }
 }
@@ -154,12 +157,27 @@ impl ContextManager {
                         return;
                     }
                     context.borrow_mut().remove_var(name);
-                    return;
+                    break;
                 }
             }
+            if Self::is_exported(name) {
+                env::remove_var(name);
+                self.get_env_context().borrow_mut().remove_var(name);
+            }
         }
     }
 
+    /// Checks if a variable is part of the environment.
+    fn is_exported(name: &str) -> bool {
+        !name.is_empty() && !name.contains(['=', '\0']) && env::var_os(name).is_some()
+    }
+
+    /// Adds a variable to the environment and to the environment context.
+    pub fn export_var(&mut self, name: &str, value: &str) {
+        let mut var = Var::new(name, value);
+        var.export();
+        self.get_env_context().borrow_mut().add_var(var);
+    }
 
     /// Gets a function from the Contexts.
     /// It will never attempt to get a function from an exported context without a namespace.
@@ -241,9 +259,9 @@ impl ContextManager {
     }
 
     /// Adds a variable to the current context.
+    /// If it is part of the environment, then it changes there as well.
     pub fn add_var(&mut self, set: &str) {
-        let mut split = set.split("=");
-        let name = split.next().unwrap();
+        let (name, value) = set.split_once("=").unwrap_or((set, ""));
 
         for context in self.context_stack.iter_mut().rev() {
             if context.borrow().get_var(name).is_some() {
@@ -251,6 +269,9 @@ impl ContextManager {
                     return;
                 }
                 context.borrow_mut().add_var(set);
+                if Self::is_exported(name) {
+                    self.export_var(name, value);
+                }
                 return;
             }
         }
@@ -372,8 +393,9 @@ impl ContextManager {
     /// Converts the environment variables into a HashMap of variables.
     fn convert_env() -> HashMap<String, Rc<RefCell<Var>>> {
         let mut vars = HashMap::new();
-        for (key, value) in std::env::vars() {
-            vars.insert(key.clone(), Rc::new(RefCell::new(Var::new(&key, &value))));
+        for (key, value) in std::env::vars_os() {
+            let (key, value) = (key.to_string_lossy(), value.to_string_lossy());
+            vars.insert(key.to_string(), Rc::new(RefCell::new(Var::new(&key, &value))));
         }
         vars
     }
diff --git a/src/eval.rs b/src/eval.rs
index ce91a75..958e9e1 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -441,7 +441,7 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
         if let Some((name, value)) = assign.split_once('=') {
-            env::set_var(name, value);
+            Var::new(name, value).export();
         }
     }
 }
diff --git a/src/shell.rs b/src/shell.rs
index 49e9576..204da59 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -279,6 +279,10 @@ impl Shell {
         //let pos = self.var_data.get_current_context_pos();
         //self.var_data.add_var(set, pos);
     }
+    /// This function adds a variable to the environment.
+    pub fn export_var(&mut self, name: &str, value: &str) {
+        self.context_manager.export_var(name, value);
+    }
     pub fn add_var_readonly(&mut self, set: &str) {
         self.context_manager.add_var_readonly(set);
     }
@@ -611,6 +615,11 @@ pub fn add_var(set: &str, index: usize) {
     let mut shell = SHELL.get().borrow_mut();
     shell.add_var(set, index);
 }
+/// This function adds a variable to the environment.
+pub fn export_var(name: &str, value: &str) {
+    let mut shell = SHELL.get().borrow_mut();
+    shell.export_var(name, value);
+}
 pub fn add_readonly_var(var: &str) {
     let mut shell = SHELL.get().borrow_mut();
     shell.add_var_readonly(var);
-- 
2.43.0


From 9d04d31c81a1250ad237617b7505b835edb1d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 24/58] fix: export context names the file it is given and
 cleans up after failures

---
 src/builtins.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index bf0ae41..d7aee73 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -256,15 +256,15 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
     };
 
     shell::push_context_new();
+    let result = eval::eval(&mut ast);
+    let context = shell::pop_context().unwrap();
 
-    match eval::eval(&mut ast) {
-        Ok(_) => {},
+    match result {
+        Ok(_) => Ok(context),
         Err(e) => {
-            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating file: {}", e)));
+            Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating file: {}", e)))
         }
     }
-    let context = shell::pop_context().unwrap();
-    Ok(context)
 }
 
 /// This is the 'export' command of the shell.
@@ -292,9 +292,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "export context needs an argument"));
         }
         if suffix.word[1].as_str().contains('=') {
-            let mut split = suffix.word[1].split('=');
-            let namespace = split.next().unwrap();
-            let file = split.next().unwrap();
+            let (namespace, file) = suffix.word[1].split_once('=').unwrap();
             
             if file == "self" {
                 let context = shell::get_current_context();
@@ -310,15 +308,13 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         else {
             if suffix.word[1].as_str() == "self" {
                 let context = shell::get_current_context();
-                let namespace = {
-                    context.borrow().get_var("0").unwrap().borrow().value.clone()
-                };
+                let namespace = shell::expand_var("0").unwrap_or_default();
                 shell::add_context(&namespace, context);
                 return Ok(());
             }
             else {
-                let result = create_context_from_file(suffix.word[0].as_str())?;
-                shell::add_context(suffix.word[0].as_str(), result);
+                let result = create_context_from_file(suffix.word[1].as_str())?;
+                shell::add_context(suffix.word[1].as_str(), result);
             }
         }
         return Ok(());
-- 
2.43.0


From d60610a8a35101a302c581abbc2419d8e8fe308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 25/58] fix: the words of an alias come before the arguments
 and keep their quotes

---
 src/ast.rs   | 3 ++-
 src/shell.rs | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index c4aae30..d7224c5 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -266,7 +266,8 @@ impl SimpleCommand {
                 self.name = name;
                 match &mut self.suffix {
                     Some(suffix) => {
-                        suffix.word.append(&mut args);
+                        args.append(&mut suffix.word);
+                        suffix.word = args;
                     }
                     None => {
                         self.suffix = Some(Suffix {
diff --git a/src/shell.rs b/src/shell.rs
index 204da59..9c75789 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -14,7 +14,7 @@ use rustyline::Editor;
 use rustyline::history::FileHistory;
 use rustyline::config;
 use crate::var::{VarData, VarDataUtils};
-use crate::ast::FunctionBody;
+use crate::ast::{FunctionBody, SplitWhitespaceIgnoringQuotes};
 use crate::context::{ContextManager, Context};
 use crate::completion::CompletionHelper;
 
@@ -175,8 +175,8 @@ impl Shell {
         match self.aliases.get(command) {
             None => None,
             Some(alias) => {
-                let mut args = alias.split_whitespace();
-                let command = args.next().unwrap();
+                let mut args = alias.split_whitespace_ig_qts().into_iter();
+                let command = args.next()?;
                 let args: Vec<String> = args.map(|s| s.to_string()).collect();
                 if args.is_empty() {
                     Some((command.to_string(), None))
@@ -376,7 +376,7 @@ impl ShellAliasUtils<&str> for Shell {
     /// The string is split into two parts and the first part is used as the alias name
     /// and the second part is used as the alias value.
     fn add_alias(&mut self, input: &str) {
-        let split = input.split('=').collect::<Vec<&str>>();
+        let split = input.splitn(2, '=').collect::<Vec<&str>>();
         if split.len() != 2 {
             eprintln!("Invalid alias");
             return;
-- 
2.43.0


From ffa83936d981b2c64dee611f5a5554443325e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 26/58] fix: a command is looked up once its name is known,
 after alias lookup and expansion

---
 src/eval.rs | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 958e9e1..8f13adb 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -390,10 +390,7 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
 /// made the Process.
 fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Process, SimpleCommand)>,String> {
    
-    if check_if_builtin(&simple_command.name) {
-        return eval_builtin(simple_command);
-    }
-
+    let has_name = simple_command.name != "";
     
     //todo make this one function to resolve problems
     /*log!("eval_simple_command: {:?}", simple_command);
@@ -412,8 +409,11 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Pro
     simple_command.alias_lookup();
     simple_command.expand_vars();
     simple_command.eval();
-   
-    
+
+    // a name that expands to nothing is still the name of a command
+    if check_if_builtin(&simple_command.name) && (has_name == (simple_command.name != "")) {
+        return eval_builtin(simple_command);
+    }
 
     //log!("eval_simple_command: {:?}", simple_command);
     
@@ -529,25 +529,6 @@ fn check_if_builtin(cmd_name: &str) -> bool {
 /// This function evaluates a shell builtin. We should handle the error properly here.
 fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCommand)>,String> {
 
-    /*command.remove_whitespace();
-    log!("eval_simple_command: {:?}", command);
-    command.eval_double_quotes();
-    log!("eval_double_quotes: {:?}", command);
-    command.alias_lookup();
-    log!("alias_lookup: {:?}", command);
-    command.expand_vars();
-    log!("expand_vars: {:?}", command);
-    command.remove_double_quotes();
-    log!("remove_double_quotes: {:?}", command);
-    command.remove_single_quotes();
-    log!("remove_single_quotes: {:?}", command);*/
-
-
-    command.alias_lookup();
-    command.expand_vars();
-    command.eval();
-
-
     let result = call_builtin(command);
 
     match result {
-- 
2.43.0


From 58fab070ee0e6844e4b1895ab28ea3fada9548d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 27/58] fix: commands can be named by their path, and an unset
 PATH does not panic

---
 src/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 82118d1..23b3718 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -331,7 +331,12 @@ impl ContextManager {
 
     /// Looks up a command in the PATH variable.
     pub fn lookup_command(&self, cmd: &str) -> Option<String> {
-        for path in self.context_stack.first().unwrap().borrow().get_var("PATH").unwrap().borrow().value.split(":") {
+        // a name with a slash in it is a path already
+        if cmd.contains('/') {
+            return Some(cmd.to_string());
+        }
+        let search_path = self.get_var("PATH")?.borrow().value.clone();
+        for path in search_path.split(":") {
             let path = format!("{}/{}", path, cmd);
             let metadata = std::fs::metadata(&path);
             if metadata.is_ok() {
-- 
2.43.0


From 3b104ff42161445d9a04bd80f984b4657f68714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 28/58] fix: a failing exec leaves the signal handling of the
 shell alone

---
 src/eval.rs |  9 ++++++---
 src/trap.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 8f13adb..a7ca526 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -728,8 +728,6 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
     //
     //set assignments
   
-    jobs::fork_reset();
-
     let argv0 = match shell::lookup_command(&process.argv0) {
         Some(cmd) => cmd,
         None => {
@@ -740,7 +738,12 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
     let command = CString::new(argv0).unwrap();
 
 
-    match nix::unistd::execve(&command, &process.argv, &env) {
+    let old_signals = trap::exec_reset();
+    let result = nix::unistd::execve(&command, &process.argv, &env);
+    // the shell goes on, with its own signal handling
+    trap::exec_restore(old_signals);
+
+    match result {
         Ok(_) => {
             unreachable!();
         },
diff --git a/src/trap.rs b/src/trap.rs
index d7d2ee9..24c1b71 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -472,3 +472,29 @@ pub fn remove_handlers() {
     }
 }
 
+
+/// This function prepares for an exec in the shell itself. The signal handlers are reset by a successful exec,
+/// what remains to be done is to unblock the signals and to undo what the Rust runtime does with SIGPIPE.
+/// It returns what is needed to go on if the exec fails.
+pub fn exec_reset() -> (signal::SigAction, signal::SigSet) {
+    let sig_action = signal::SigAction::new(
+        signal::SigHandler::SigDfl,
+        signal::SaFlags::empty(),
+        signal::SigSet::empty(),
+    );
+    let old_action = unsafe {
+        signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap()
+    };
+    let mut old_mask = signal::SigSet::empty();
+    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&signal::SigSet::empty()), Some(&mut old_mask)).unwrap();
+
+    (old_action, old_mask)
+}
+
+/// This function undoes exec_reset.
+pub fn exec_restore((old_action, old_mask): (signal::SigAction, signal::SigSet)) {
+    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&old_mask), None).unwrap();
+    unsafe {
+        signal::sigaction(Signal::SIGPIPE, &old_action).unwrap();
+    }
+}
-- 
2.43.0


From 8bef29e4b8ac8ec65a868e08d8db6283eb0d8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 29/58] fix: scripts and -c print nothing of their own, end,
 and exit with the status of the last command

---
 src/main.rs | 55 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 18cc3d6..e922550 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -26,6 +26,7 @@ use std::env;
 use std::fs::File;
 use std::io::BufReader;
 use std::io::prelude::*;
+use std::process::exit;
 
 
 use nix::errno::Errno;
@@ -34,7 +35,7 @@ use rustyline::error::ReadlineError;
 
 fn main() {
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<String> = env::args_os().map(|arg| arg.to_string_lossy().to_string()).collect();
 
     let input = parse_args(args);
 
@@ -78,9 +79,11 @@ fn main() {
     }
     else if input.is_some() {
         read_from_args(&input.unwrap());
+        exit(eval::get_exit_code());
     }
     else if input.is_none() {
         script_loop(&shell::get_script_name());
+        exit(eval::get_exit_code());
     }
 
 }
@@ -105,8 +108,7 @@ fn parse_args(args: Vec<String>) -> Option<String> {
     let mut pos = 0;
 
     for arg in args.iter() {
-            println!("arg: {}", arg);
-        if arg.chars().nth(0).unwrap() == '-' && !non_interactive_mode {
+        if arg.starts_with('-') && !non_interactive_mode {
             read_from_args = parse_dash_arg(&arg);
             if read_from_args {
                 break;
@@ -133,8 +135,6 @@ fn parse_args(args: Vec<String>) -> Option<String> {
 
         args.drain(0..=pos);
 
-        println!("{:?}", args);
-
         let output = args.join(" ");
 
         return Some(output);
@@ -255,32 +255,47 @@ fn interactive_loop() {
 /// This function takes a file name and puts the contents of the file into a buffer.
 /// The buffer is then passed into the parser and evaluated.
 fn script_loop(script_name: &str) {
-    let file = File::open(script_name).unwrap();
+    let file = match File::open(script_name) {
+        Ok(file) => file,
+        Err(err) => {
+            eprintln!("{}: {}", script_name, err);
+            exit(127);
+        }
+    };
     let mut buf_reader = BufReader::new(file);
     loop {
 
-        let mut input = String::new();
-        buf_reader.read_line(&mut input).unwrap();
-
-
-        let lexer = Lexer::new(&input);        
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&input,lexer)
-            .unwrap();
-
-        let _result = eval::eval(&mut ast);
+        let mut input = Vec::new();
+        match buf_reader.read_until(b'\n', &mut input) {
+            Ok(0) => break,
+            Ok(_) => {},
+            Err(err) => {
+                eprintln!("{}: {}", script_name, err);
+                exit(126);
+            }
+        }
 
+        read_from_args(&String::from_utf8_lossy(&input));
     }
 }
 
 /// This function takes in the commandline arguments as a &str and evaluates it.
 fn read_from_args(input: &str) {
     let lexer = Lexer::new(&input);        
-    let mut ast = grammar::CompleteCommandParser::new()
-        .parse(&input,lexer)
-        .unwrap();
+    let mut ast = match grammar::CompleteCommandParser::new()
+        .parse(&input,lexer) {
+            Ok(ast) => ast,
+            Err(err) => {
+                eprintln!("Error: {:?}", err);
+                eval::set_exit_status(2);
+                return;
+            }
+        };
 
-    let _result = eval::eval(&mut ast);
+    if let Err(err) = eval::eval(&mut ast) {
+        eprintln!("{}", err);
+        eval::set_exit_status(1);
+    }
 }
 
 
-- 
2.43.0


From 9aee9c5688413d216b7444b11cc511527d5d18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 30/58] fix: completion does not panic without PATH or with
 file names that are not UTF-8

---
 src/completion.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/completion.rs b/src/completion.rs
index 76bd276..e26d051 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -98,7 +98,7 @@ impl Completer for PathCompleter {
 
 fn command_complete(line: &str) -> Vec<Pair> {
     let path = {
-        env::var_os("PATH").unwrap().into_string().unwrap()
+        env::var_os("PATH").unwrap_or_default().to_string_lossy().to_string()
         //shell::expand_var("PATH").unwrap().clone()
     };
     let paths = path.split(":");
@@ -110,8 +110,11 @@ fn command_complete(line: &str) -> Vec<Pair> {
             continue;
         }
         for entry in entry_fs.unwrap() {
-            let entry = entry.unwrap();
-            let name = entry.file_name().into_string().unwrap();
+            let name = match entry.map(|entry| entry.file_name().into_string()) {
+                Ok(Ok(name)) => name,
+                // not something that could be typed
+                _ => continue,
+            };
 
             if !name.starts_with(line) {
                 continue;
-- 
2.43.0


From 77b53a344c3eccfdbed69e6a4f4d1161c42d8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 31/58] fix: bad descriptors, NUL bytes and files that are not
 UTF-8 are errors, not panics

---
 src/builtins.rs | 10 +++++-----
 src/eval.rs     |  9 ++++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index d7aee73..3c96bcd 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -602,25 +602,25 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         log!("word: {}", suffix.word[i]);
         if i == pos && dash && rename {
             let temp = "-".to_string() + suffix.word[pos - 1].as_str();
-            args.push(CString::new(temp.as_str()).unwrap());
+            args.push(CString::new(temp.as_str())?);
             cmd += suffix.word[pos - 1].as_str();
             cmd += " ";
             continue;
         }
         else if i == pos && dash {
             let temp = "-".to_string() + suffix.word[i].as_str();
-            args.push(CString::new(temp.as_str()).unwrap());
+            args.push(CString::new(temp.as_str())?);
             cmd += suffix.word[i].as_str();
             cmd += " ";
             continue;
         }
         else if rename && i == pos {
             cmd += suffix.word[pos - 1].as_str();
-            args.push(CString::new(suffix.word[pos - 1].as_str()).unwrap());
+            args.push(CString::new(suffix.word[pos - 1].as_str())?);
             cmd += " ";
             continue;
         }
-        args.push(CString::new(suffix.word[i].as_str()).unwrap());
+        args.push(CString::new(suffix.word[i].as_str())?);
         cmd += suffix.word[i].as_str();
         cmd += " ";
     }
@@ -689,7 +689,7 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut file = file.unwrap();
 
     let mut contents = String::new();
-    file.read_to_string(&mut contents).unwrap();
+    file.read_to_string(&mut contents)?;
 
     let mut lexer = Lexer::new(contents.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(contents.as_str(),lexer) {
diff --git a/src/eval.rs b/src/eval.rs
index a7ca526..622a115 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -490,7 +490,10 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                 fcntl(fd, FcntlArg::F_SETFD(FdFlag::empty())).unwrap();
             }
             else {
-                dup2(file.as_raw_fd(), fd).unwrap();
+                if let Err(err) = dup2(file.as_raw_fd(), fd) {
+                    eprintln!("{}: {}", fd, err);
+                    std::process::exit(1);
+                }
             }
             mem::forget(file);
         }
@@ -707,7 +710,7 @@ fn temp_exec(process: &mut Process) -> Result<i32,String> {
         }
     };
 
-    let command = CString::new(argv0).unwrap();
+    let command = CString::new(argv0).map_err(|_| format!("{}: Command not found", process.argv0))?;
 
 
     match execv(&command, &process.argv) {
@@ -735,7 +738,7 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
         }
     };
 
-    let command = CString::new(argv0).unwrap();
+    let command = CString::new(argv0).map_err(|_| format!("{}: Command not found", process.argv0))?;
 
 
     let old_signals = trap::exec_reset();
-- 
2.43.0


From df407525e30301f31768d3ab815d4890909d7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 32/58] fix: job messages are not part of the output of scripts
 and substitutions

---
 src/eval.rs  | 4 +++-
 src/jobs.rs  | 2 +-
 src/shell.rs | 5 +++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 622a115..605d11c 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -336,7 +336,9 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
             set_wait_status(status);
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
-            println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+            if shell::reports_jobs() {
+                println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+            }
             set_exit_status(0);
         }
         else {
diff --git a/src/jobs.rs b/src/jobs.rs
index 50ac729..a33a1ce 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -585,7 +585,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         shell::delete_job(id);
     }
 
-    if this_job.is_some() && job == &this_job {
+    if this_job.is_some() && job == &this_job && shell::reports_jobs() {
 
         let output = format_status(result, true);
 
diff --git a/src/shell.rs b/src/shell.rs
index 9c75789..af8c6c9 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -538,6 +538,11 @@ pub fn is_interactive() -> bool {
     let shell = SHELL.get().borrow();
     shell.interactive
 }
+/// This function checks if the shell tells the user what happens to jobs.
+/// That is not part of the output of a script or of a command substitution.
+pub fn reports_jobs() -> bool {
+    is_interactive() && !get_forked()
+}
 /// This function sets the shell to be interactive or not.
 pub fn set_interactive(interactive: bool) {
     let mut shell = SHELL.get().borrow_mut();
-- 
2.43.0


From af3ff4d8f1c2f54337e2eae8358af881bc765904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 33/58] fix: exporting a readonly variable again does not make
 it writable

---
 src/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 23b3718..817455d 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -176,7 +176,9 @@ impl ContextManager {
     pub fn export_var(&mut self, name: &str, value: &str) {
         let mut var = Var::new(name, value);
         var.export();
-        self.get_env_context().borrow_mut().add_var(var);
+        let context = self.get_env_context();
+        var.readonly = context.borrow().is_readonly_var(name);
+        context.borrow_mut().add_var(var);
     }
 
     /// Gets a function from the Contexts.
-- 
2.43.0


From 936f0e8f4112d228028dc565e1b25ed524198c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 34/58] fix: a # after the = of an assignment is part of its
 value

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 18b0f0e..c255c66 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -186,6 +186,8 @@ impl<'input> Iterator for Lexer<'input> {
                         
                     }
                 },
+                // the value of an assignment, not a comment
+                '#' if self.input[..start].ends_with('=') => Some(self.word(start, end)),
                 '#' => {
                     while let Some((_, chr, _)) = self.lookahead {
                         match chr {
-- 
2.43.0


From 7afa9777355c0926d4a495e7d3ca9d31894b5fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 35/58] fix: an alias with an empty name does not replace
 assignments

---
 src/ast.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index d7224c5..995abf0 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -253,6 +253,10 @@ impl SplitWhitespaceIgnoringQuotes for str {
 lalrpop_mod!(pub grammar);
 impl SimpleCommand {
     pub fn alias_lookup(&mut self) {
+        if self.name.is_empty() {
+            // assignments and redirects without a command
+            return;
+        }
         match shell::lookup_alias(&self.name) {
             Some(alias) => {
                 let name = alias.0;
-- 
2.43.0


From ccc57c95d5d28a6465a60c5bb88da6edd977f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 36/58] fix: jobs notices that a stopped job has been continued
 by somebody else

---
 src/jobs.rs | 30 +++++++++++++++++++++++++++++-
 src/trap.rs |  8 +++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index a33a1ce..c3fd749 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -395,6 +395,19 @@ impl Job {
         }
     }
 
+    /// This method is for when a process of the job goes on after having been stopped.
+    /// A job that nobody is waiting for goes on in the background.
+    pub fn process_continued(&mut self, pid: Pid, background: bool) {
+        for process in &mut self.processes {
+            if process.pid == pid && matches!(process.status, Some(WaitStatus::Stopped(_, _))) {
+                process.status = None;
+                self.state = JobState::Running;
+                self.stop_status = WaitStatus::StillAlive;
+                self.background = background;
+            }
+        }
+    }
+
     /// This method sets the status of a process in the job via the pid.
     pub fn set_process_status(&mut self, pid: Pid, status: WaitStatus) {
         for process in &mut self.processes {
@@ -526,6 +539,14 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         WaitStatus::Stopped(id, _) => {
             pid = id;
         },
+        WaitStatus::Continued(id) => {
+            if let Some(continued) = shell::get_job(id) {
+                let background = Some(&continued) != job.as_ref();
+                continued.borrow_mut().process_continued(id, background);
+            }
+            trap::interrupts_on();
+            return Ok(Some(id));
+        },
         WaitStatus::StillAlive => {
             return Ok(None);
         },
@@ -631,9 +652,13 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
         block &= !DOWAIT_WAITCMD_ALL;
 
         // the wait is over once our job is, not when a process of some other job has changed state
+        // (unless it turns out that a process of it was continued meanwhile)
         if job.is_none() || job.as_ref().unwrap().borrow().state != JobState::Running {
             block = DOWAIT_NONBLOCK;
         }
+        else {
+            block = DOWAIT_BLOCK;
+        }
        
         if pid.is_err() {
             break;
@@ -651,7 +676,10 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
 pub fn wait_process(block: usize) -> Result<WaitStatus, Errno> {
     //eprintln!("wait_process");
     let mut old_mask = signal::SigSet::empty();
-    let flags = if block == DOWAIT_BLOCK {WaitPidFlag::WUNTRACED} else {WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED};
+    let mut flags = WaitPidFlag::WUNTRACED | WaitPidFlag::WCONTINUED;
+    if block != DOWAIT_BLOCK {
+        flags |= WaitPidFlag::WNOHANG;
+    }
 
 
     let mut result;
diff --git a/src/trap.rs b/src/trap.rs
index 24c1b71..f0dfb86 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -243,7 +243,7 @@ extern "C" fn on_sig(sig_num: c_int) {
 fn sig_chld() -> bool {
     let pid = Pid::from_raw(-1);
 
-    let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED;
+    let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED | WaitPidFlag::WCONTINUED;
     let result = waitpid(pid, Some(flag));
     if result.is_err() {
         return false;
@@ -263,6 +263,12 @@ fn sig_chld() -> bool {
             pid = id;
             status
         },
+        WaitStatus::Continued(id) => {
+            if let Some(job) = shell::get_job(*id) {
+                job.borrow_mut().process_continued(*id, true);
+            }
+            return true;
+        },
         WaitStatus::StillAlive => {
             return false;
         },
-- 
2.43.0


From 4b7e55480c6e14f88d21c6ce13d9542378a44afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 37/58] fix: at a terminal Ctrl-C and Ctrl-Z act on the
 foreground job alone

---
 src/builtins.rs |  9 +++++++++
 src/eval.rs     | 26 +++++++++++++++++++-------
 src/jobs.rs     | 18 +++++++++++++++++-
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 3c96bcd..2234d04 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -151,12 +151,21 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     }
     
     
+    // all of the job has to be in the foreground of the terminal before it continues
+    let own_terminal = jobs::has_terminal();
+    if own_terminal {
+        jobs::give_terminal(job.as_ref().unwrap().borrow().processes[0].pid);
+    }
+
     job.as_ref().unwrap().borrow_mut().background = false;
     job.as_ref().unwrap().borrow_mut().resume();
 
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
     let status = jobs::wait_for_job(job);
+    if own_terminal {
+        jobs::give_terminal(nix::unistd::getpgrp());
+    }
     eval::set_wait_status(status);
     Ok(())
 }
diff --git a/src/eval.rs b/src/eval.rs
index 605d11c..0b57172 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -17,7 +17,7 @@ use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};
 use crate::log;
 
 use std::os::unix::io::RawFd;
-use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pid};
+use nix::unistd::{close, dup2, pipe,execv, fork, getpid, getpgrp, ForkResult, Pid};
 
 /// Stores the exit status of the last command
 pub static mut EXIT_STATUS: AtomicI32 = AtomicI32::new(0);
@@ -213,6 +213,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     
 
+    // at a terminal a foreground job has it to itself, so that what is typed does not act on other jobs
+    let own_terminal = !background && jobs::has_terminal();
     let proc_count;
     let mut failure: Option<String> = None;
     // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
@@ -244,12 +246,11 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
 
             let temp_fork_result = temp_fork(process);
             if temp_fork_result == Ok(Pid::from_raw(0)) {
-                if pgid.is_none() {
-                    pgid = Some(getpid());
+                if background || own_terminal {
+                    jobs::join_group(getpid(), pgid);
                 }
-                let pid = getpid();
-                if background {
-                    setpgid(pid, pgid.unwrap()).unwrap();
+                if own_terminal {
+                    jobs::give_terminal(pgid.unwrap_or(getpid()));
                 }
 
                 //unblock interrupts
@@ -295,7 +296,15 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 }
             }
             else if matches!(temp_fork_result, Ok(_)) {
-                shell::update_pid_table(job_id, temp_fork_result.unwrap());
+                let pid = temp_fork_result.unwrap();
+                shell::update_pid_table(job_id, pid);
+                if background || own_terminal {
+                    jobs::join_group(pid, pgid);
+                    if own_terminal && pgid.is_none() {
+                        jobs::give_terminal(pid);
+                    }
+                    pgid = pgid.or(Some(pid));
+                }
             }
             else {
                 failure = Some("Failed to fork".to_string());
@@ -326,6 +335,9 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
         if !background && proc_count > 0 && job.borrow().processes.len() > 0{
             //eprintln!("waiting for job");
             let status = jobs::wait_for_job(Some(job.clone()));
+            if own_terminal {
+                jobs::give_terminal(getpgrp());
+            }
             let id;
             {
                 let job = job.borrow();
diff --git a/src/jobs.rs b/src/jobs.rs
index c3fd749..32bc143 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -1,5 +1,5 @@
 use std::ffi::CString;
-use nix::unistd::Pid;
+use nix::unistd::{self, Pid};
 use nix::sys::wait::{waitpid, WaitStatus, WaitPidFlag};
 use nix::sys::signal;
 use nix::errno::Errno;
@@ -723,6 +723,22 @@ pub fn wait_process(block: usize) -> Result<WaitStatus, Errno> {
 }
 
 
+/// This function checks if the shell is in the foreground of a terminal, which it then lends to its foreground jobs.
+pub fn has_terminal() -> bool {
+    shell::reports_jobs() && unistd::tcgetpgrp(0) == Ok(unistd::getpgrp())
+}
+
+/// This function makes a process group the one that the terminal is for.
+pub fn give_terminal(pgid: Pid) {
+    let _ = unistd::tcsetpgrp(0, pgid);
+}
+
+/// This function puts a process into the process group of its job, which is named after the first of them.
+/// Both the shell and the process itself do this, as neither can rely on the other to be in time.
+pub fn join_group(pid: Pid, pgid: Option<Pid>) {
+    let _ = unistd::setpgid(pid, pgid.unwrap_or(pid));
+}
+
 /// This function is used to format a status message for a job.
 fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
     let mut output = String::new();
-- 
2.43.0


From c14a1ba5598d91f8d87eb364e9c77ad2c9c3c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 38/58] fix: signals act on commands that have not got to their
 exec yet

---
 src/eval.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 0b57172..1acbe1f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -8,6 +8,7 @@ use crate::trap;
 use crate::context::{ContextUtils, Var};
 use nix::errno::Errno;
 use nix::fcntl::{fcntl, FcntlArg, FdFlag};
+use nix::sys::signal;
 use nix::sys::wait::WaitStatus;
 use std::fs::{File, OpenOptions};
 use std::os::unix::io::AsRawFd;
@@ -252,6 +253,8 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 if own_terminal {
                     jobs::give_terminal(pgid.unwrap_or(getpid()));
                 }
+                // from here on signals act on it like on any other command, however long it takes to get to the exec
+                jobs::fork_reset();
 
                 //unblock interrupts
                 if pip.1 >= 0 {
@@ -271,8 +274,6 @@ fn eval_pipe_sequence(pipeline: &mut Pipeline) -> Result<i32,String> {
                 //println!("executing: {:?}", process.argv);
                 
                 if shell::is_function(&commands[count].name) {
-                    // signals act on it like on any other command
-                    jobs::fork_reset();
                     let result = eval_function(&mut commands[count]);
                     
                     match result {
@@ -693,8 +694,16 @@ fn eval_compound_list(compound_list: &mut CompoundList) -> Result<i32,String> {
 
 /// This function is a wraper for fork().
 /// It also sets up the command's pid in the parent and sets the shell's forked flag in the child.
+/// All signals are blocked in the child, so that it does not miss any before its handlers are reset.
 fn temp_fork(command: &mut Process) -> Result<Pid,Errno> {
-    match unsafe {fork()}?{
+    let mut old_mask = signal::SigSet::empty();
+    signal::sigprocmask(signal::SigmaskHow::SIG_BLOCK, Some(&signal::SigSet::all()), Some(&mut old_mask))?;
+    let result = unsafe {fork()};
+    if !matches!(result, Ok(ForkResult::Child)) {
+        signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&old_mask), None)?;
+    }
+
+    match result? {
         ForkResult::Parent { child } => {
             //need to add in logic for setting up jobs
             command.set_pid(child);
-- 
2.43.0


From 42accaf866d103a5e38196a17cea26813cdbe090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 39/58] fix: signals are handled by the main thread, also after
 the completion menu was used

---
 src/trap.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trap.rs b/src/trap.rs
index f0dfb86..cd7c486 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -199,6 +199,14 @@ extern "C" fn on_sig(sig_num: c_int) {
     if is_blocked() {
         return;
     }
+    // the completion menu leaves threads behind, which know nothing of the state of the shell
+    if nix::unistd::gettid() != nix::unistd::getpid() {
+        unsafe {
+            let main = nix::unistd::getpid().as_raw();
+            nix::libc::syscall(nix::libc::SYS_tgkill, main, main, sig_num);
+        }
+        return;
+    }
     if shell::get_forked() {
         return;
     }
-- 
2.43.0


From 6cc171f8adbea520bc553e9190c078f013bb9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 40/58] fix: an assignment without a value assigns nothing, and
 values can start with '='

---
 src/lexer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index c255c66..194f24d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -123,6 +123,8 @@ impl Display for Token<'_> {
 
 pub struct Lexer<'input> {
     send_eof: bool,
+    /// Where the empty value of an assignment is, which is the next token
+    empty_value: Option<usize>,
     input: &'input str,
     chars: CharIndices<'input>,
     lookahead: Option<(usize, char, usize)>,
@@ -136,6 +138,7 @@ impl<'input> Lexer<'input> {
         let lookahead = next.map(|n| (n.0, n.1, n.0 + n.1.len_utf8()));
         Lexer {
             send_eof: false,
+            empty_value: None,
             input,
             chars,
             lookahead,
@@ -148,6 +151,10 @@ impl<'input> Iterator for Lexer<'input> {
 
     fn next(&mut self) -> Option<Self::Item> {
 
+        if let Some(pos) = self.empty_value.take() {
+            return Some(Ok((pos, Token::Word(&self.input[pos..pos]), pos)));
+        }
+
         while let Some((start, chr, end)) = self.advance() {
             //eprintln!("{}: {}", start, chr);
             let token = match chr {
@@ -227,12 +234,18 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => Some(Ok((start, Token::Less, end))),
                     }
                 },
-                // this is only part of an assignment if it comes right after a name
-                '=' if self.input[..start].ends_with(char::is_whitespace) => {
+                // this only makes an assignment if it comes right after a name
+                '=' if self.input[..start].ends_with(|chr: char| chr == '=' || chr.is_whitespace()) => {
                     let (word, end) = self.take_while(start, end, |chr| chr == '=' || is_word_continue(chr));
                     Some(Ok((start, Token::Word(word), end)))
                 },
-                '=' => Some(Ok((start, Token::Equals, end))),
+                '=' => {
+                    match self.lookahead {
+                        Some((_, chr, _)) if is_word_start(chr) || matches!(chr, '=' | '$' | '`') => (),
+                        _ => self.empty_value = Some(end),
+                    }
+                    Some(Ok((start, Token::Equals, end)))
+                },
                 '"' => Some(self.double_quote(start, end)),
                 '\'' => Some(self.single_quote(start, end)),
                 '!' => Some(Ok((start, Token::Bang, end))),
-- 
2.43.0


From 5750fca159ed8597b76db482453888d47eb63ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 41/58] fix: a value of digits before > is no descriptor, nor
 is -1

---
 src/lexer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 194f24d..5808e64 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -399,16 +399,18 @@ impl<'input> Lexer<'input> {
             "done" => Token::Done,
             "case" => Token::Case,
             "esac" => Token::Esac,
-            word => self.num_or_word(word),
+            word => self.num_or_word(start, word),
         };
         
         Ok((start, token, end))
         
     }
 
-    fn num_or_word(&self, word: &'input str) -> Token<'input> {
+    fn num_or_word(&self, start: usize, word: &'input str) -> Token<'input> {
+        // neither '-1' nor the value of an assignment names a descriptor
+        let digits = word.chars().all(|chr| chr.is_ascii_digit()) && !self.input[..start].ends_with('=');
         if let Some((_,chr,_)) = self.lookahead {
-            if chr == '<' || chr == '>' {
+            if digits && (chr == '<' || chr == '>') {
                 match word.parse::<i32>() {
                     Ok(num) => return Token::Number(num),
                     Err(_) => return Token::Word(word),
-- 
2.43.0


From 261e882a84bff099d69e5f1577bca4e0174db0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 42/58] fix: exec counts each of its option words once

---
 src/builtins.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2234d04..c25f575 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -581,17 +581,18 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         }
     }
     if pos > 0 && suffix.word.get(pos).map_or(false, |word| word.starts_with('-')) {
+        let options = pos;
         if suffix.word[pos].contains('c') {
             empty_env = true;
-            pos += 1;
+            pos = options + 1;
         }
-        if suffix.word[pos].contains('l') {
+        if suffix.word[options].contains('l') {
             dash = true;
-            pos += 1;
+            pos = options + 1;
         }
-        if suffix.word[pos].contains('a') {
+        if suffix.word[options].contains('a') {
             rename = true;
-            pos += 2;
+            pos = options + 2;
             if suffix.word.len() <= pos {
                 return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
             }
-- 
2.43.0


From 8b11611ade5dc9e424b43588aef75ade6e299984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 43/58] fix: the signal handler preserves errno

---
 src/trap.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trap.rs b/src/trap.rs
index cd7c486..4efc40b 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -196,6 +196,16 @@ pub fn get_pending_signal() -> Option<Signal> {
 /// This function is very similar to how the Dash shell does signals. The only difference being that we handle the SIGCHLD signal.
 /// This function returns early if we are in the child.
 extern "C" fn on_sig(sig_num: c_int) {
+    // what was interrupted may be about to look at the error of its own system call
+    let errno = nix::errno::errno();
+    handle_signal(sig_num);
+    unsafe {
+        *nix::libc::__errno_location() = errno;
+    }
+}
+
+/// This function does what has to be done about a signal.
+fn handle_signal(sig_num: c_int) {
     if is_blocked() {
         return;
     }
-- 
2.43.0


From a472f89b8fd7bca2490381d81c7f883afc12a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 44/58] fix: signals that reach a command while it is being
 started are not lost

---
 src/trap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trap.rs b/src/trap.rs
index 4efc40b..3577caa 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -472,9 +472,6 @@ pub fn sig_suspend(mask: &signal::SigSet) {
 /// # Todo
 /// make this more inclusive
 pub fn remove_handlers() {
-    let sigset = signal::SigSet::empty();
-    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&sigset), None).unwrap();
-
     let sig_handler = signal::SigHandler::SigDfl;
 
     let sig_action = signal::SigAction::new(
@@ -494,6 +491,10 @@ pub fn remove_handlers() {
         // the Rust runtime ignores this one
         signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap();
     }
+
+    // signals that have come meanwhile act now, they would be lost if the handlers of the shell got them
+    let sigset = signal::SigSet::empty();
+    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&sigset), None).unwrap();
 }
 
 
-- 
2.43.0


From 88d7e33f2acf1cf2036ebcb43f7a648e0dccc96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 45/58] fix: the SIGCHLD handler leaves the jobs alone, as it
 can interrupt anything

---
 src/main.rs |  1 +
 src/trap.rs | 81 +++++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e922550..0bde4c8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -192,6 +192,7 @@ fn interactive_loop() {
         trap::interrupts_on();
         let readline = rl.borrow_mut().readline(prompt.as_str());
         trap::interrupts_off();
+        trap::handle_children();
         match readline {
             Ok(line) => {
                 //rl.borrow_mut().add_history_entry(line.as_str());
diff --git a/src/trap.rs b/src/trap.rs
index 3577caa..80f150d 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -1,9 +1,9 @@
-use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};
 use std::io::{self,Write};
 use nix::sys::signal;
 use nix::sys::signal::Signal;
 use std::os::raw::c_int;
-use nix::sys::wait::{WaitStatus,WaitPidFlag,waitpid};
+use nix::sys::wait::WaitStatus;
 use nix::unistd::Pid;
 use std::collections::HashMap;
 use lazy_static::lazy_static;
@@ -225,8 +225,7 @@ fn handle_signal(sig_num: c_int) {
             GOT_SIGCHLD.store(true, Ordering::Relaxed);
 
             // one signal can stand for any number of children
-            while sig_chld() {}
-            
+            while collect_child() {}
 
             //sig_chld();//this is different from how dash does it but it should allow for for traps to be set
             if !is_trap_set(signal::SIGCHLD) {
@@ -253,20 +252,61 @@ fn handle_signal(sig_num: c_int) {
     }
 }
 
-/// This is the signal handler for SIGCHLD.
+/// How many children a handler can collect before somebody looks at them (see handle_children)
+const COLLECTED_MAX: usize = 16384;
+/// The children that the handler has waited for: their pids and what waitpid told about them.
+static COLLECTED: [(AtomicI32, AtomicI32); COLLECTED_MAX] = [const { (AtomicI32::new(0), AtomicI32::new(0)) }; COLLECTED_MAX];
+/// How many of them there are
+static COLLECTED_COUNT: AtomicUsize = AtomicUsize::new(0);
+
+/// This is the part of the SIGCHLD handling that happens in the signal handler: it waits for one child.
 ///
-/// We have to do some interesting logic here since if we accidentally wait on a non-background process then we will have to return early.
-/// If the process is in the background then we can wait on it.
+/// A handler can interrupt anything, even the memory allocation of the line editor, so it must do nothing but a
+/// few system calls. What the status means for the jobs of the shell is left to handle_children.
 /// Returns true if there was a child to wait for, in which case there may be others.
-fn sig_chld() -> bool {
-    let pid = Pid::from_raw(-1);
-
-    let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED | WaitPidFlag::WCONTINUED;
-    let result = waitpid(pid, Some(flag));
-    if result.is_err() {
+fn collect_child() -> bool {
+    let count = COLLECTED_COUNT.load(Ordering::Relaxed);
+    if count == COLLECTED_MAX {
+        return false;
+    }
+    let mut status: c_int = 0;
+    let pid = unsafe {
+        nix::libc::waitpid(-1, &mut status, nix::libc::WNOHANG | nix::libc::WUNTRACED | nix::libc::WCONTINUED)
+    };
+    if pid <= 0 {
         return false;
     }
-    let status = result.unwrap();
+    COLLECTED[count].0.store(pid, Ordering::Relaxed);
+    COLLECTED[count].1.store(status, Ordering::Relaxed);
+    COLLECTED_COUNT.store(count + 1, Ordering::Relaxed);
+    true
+}
+
+/// This function updates the jobs with what the signal handler has found out about the children.
+///
+/// It has to be called with interrupts disabled.
+pub fn handle_children() {
+    loop {
+        let count = COLLECTED_COUNT.load(Ordering::Relaxed);
+        if count == 0 {
+            return;
+        }
+        for (pid, status) in &COLLECTED[..count] {
+            let pid = Pid::from_raw(pid.load(Ordering::Relaxed));
+            if let Ok(status) = WaitStatus::from_raw(pid, status.load(Ordering::Relaxed)) {
+                sig_chld(status);
+            }
+        }
+        COLLECTED_COUNT.store(0, Ordering::Relaxed);
+        // there may be children that were not collected for want of space
+        while collect_child() {}
+    }
+}
+
+/// This function deals with a child that has changed its state while the shell was waiting for input.
+///
+/// If the process is in the background then its job may be over.
+fn sig_chld(status: WaitStatus) {
     let pid;
     let status = match &status {
         WaitStatus::Exited(id, _) => {
@@ -285,19 +325,19 @@ fn sig_chld() -> bool {
             if let Some(job) = shell::get_job(*id) {
                 job.borrow_mut().process_continued(*id, true);
             }
-            return true;
+            return;
         },
         WaitStatus::StillAlive => {
-            return false;
+            return;
         },
         _ => {
-            return true;
+            return;
         }, 
     };
 
     let job = shell::get_job(*pid);
     if job.is_none() {
-        return true;
+        return;
     }
     job.as_ref().unwrap().borrow_mut().set_process_status(*pid, status);
    
@@ -305,12 +345,12 @@ fn sig_chld() -> bool {
     if job.as_ref().unwrap().borrow().background || stopped {
         match status {
             WaitStatus::Signaled(_, _, _) => {
-                let msg = format!("Job [{}] ({}) terminated by signal",job.as_ref().unwrap().borrow().job_id, pid);
+                let msg = format!("Job [{}] ({}) terminated by signal\n",job.as_ref().unwrap().borrow().job_id, pid);
                 std::io::stdout().write_all(&msg.as_bytes()).unwrap();
                 std::io::stdout().flush().unwrap();
             },
             WaitStatus::Stopped(_, _) => {
-                let msg = format!("Job [{}] ({}) stopped by signal",job.as_ref().unwrap().borrow().job_id, pid);
+                let msg = format!("Job [{}] ({}) stopped by signal\n",job.as_ref().unwrap().borrow().job_id, pid);
                 std::io::stdout().write_all(&msg.as_bytes()).unwrap();
                 std::io::stdout().flush().unwrap();
             },
@@ -319,7 +359,6 @@ fn sig_chld() -> bool {
         
         jobs::wait_for_job_sigchld(job, status);
     }
-    true
 }
 
 /// This functions is called if the signal was a SIGINT.
-- 
2.43.0


From 0816b3eaa51d7e611d26bb73d46771e5e3eeeaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 46/58] fix: signals do not disturb the start and the end of a
 command substitution

---
 src/ast.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 995abf0..a29c469 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -425,7 +425,15 @@ impl SimpleCommand {
             }
         };
 
-        match unsafe {nix::unistd::fork()} {
+        // signals wait until the handlers of the child are reset, so that it does not miss any
+        let mut old_mask = nix::sys::signal::SigSet::empty();
+        crate::trap::sig_block_all(&mut old_mask);
+        let forked = unsafe {nix::unistd::fork()};
+        if !matches!(forked, Ok(nix::unistd::ForkResult::Child)) {
+            let _ = old_mask.thread_set_mask();
+        }
+
+        match forked {
             Err(err) => {
                 eprintln!("Failed to fork: {}", err);
                 nix::unistd::close(pip.0).unwrap();
@@ -440,7 +448,7 @@ impl SimpleCommand {
                 // read until the end before waiting, the child cannot finish while the pipe is full
                 let _ = file.read_to_end(&mut buf);
                 drop(file);
-                let _ = waitpid(child, None);
+                while waitpid(child, None) == Err(nix::errno::Errno::EINTR) {}
                 // arguments and variables cannot hold NUL bytes
                 String::from_utf8_lossy(&buf).replace('\0', "").trim().to_string()
             },
-- 
2.43.0


From 30483e4179432f84c511c305a2b7a05332067ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 47/58] fix: the startup file is read from the home directory,
 and its problems do not end the shell

---
 src/main.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0bde4c8..4b83d7f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -26,6 +26,7 @@ use std::env;
 use std::fs::File;
 use std::io::BufReader;
 use std::io::prelude::*;
+use std::path::Path;
 use std::process::exit;
 
 
@@ -375,7 +376,11 @@ fn read_user_profile() -> Result<(), Box<dyn Error>> {
 /// The return value is Ok(()) if the parser is successful.
 /// The return value is Err(err) if the parser fails.
 fn read_rc() -> Result<(), Box<dyn Error>> {
-    let file = File::open("~/.rshrc");
+    let home = match env::var_os("HOME") {
+        Some(home) if !home.is_empty() => home,
+        _ => return Ok(()),
+    };
+    let file = File::open(Path::new(&home).join(".rshrc"));
     if file.is_err() {
         return Ok(());
     }
@@ -384,7 +389,7 @@ fn read_rc() -> Result<(), Box<dyn Error>> {
     match file.read_to_string(&mut rc) {
         Ok(_) => {},
         Err(err) => {
-            println!("Error reading ~/.rshrc: {:?}", err);
+            eprintln!("Error reading ~/.rshrc: {:?}", err);
         }
     }
     
@@ -393,12 +398,14 @@ fn read_rc() -> Result<(), Box<dyn Error>> {
         .parse(&rc,lexer) {
             Ok(ast) => ast,
             Err(err) => {
-                println!("Error: {:?}", err);
+                eprintln!("Error: {:?}", err);
                 return Ok(());
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    if let Err(err) = eval::eval(&mut ast) {
+        eprintln!("{}", err);
+    }
 
     Ok(())
 }
-- 
2.43.0


From 2dfd10d7c544df6ec2dda65470b65b5774dff30f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:23:35 +0000
Subject: [PATCH 48/58] fix: unset and readonly act on every name they are
 given

---
 src/builtins.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index c25f575..68b91a6 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -445,16 +445,18 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 	return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset needs an argument"));
     }
 
-    match flags {
-        Flags::Variable => {
-            shell::remove_var(command.suffix.as_ref().unwrap().word[pos].as_str());
-        },
-        Flags::Function => {
-            shell::remove_function(command.suffix.as_ref().unwrap().word[pos].as_str());
-        },
-        Flags::Context => {
-            shell::remove_context(command.suffix.as_ref().unwrap().word[pos].as_str());
-        },
+    for name in command.suffix.as_ref().unwrap().word[pos..].iter() {
+        match flags {
+            Flags::Variable => {
+                shell::remove_var(name.as_str());
+            },
+            Flags::Function => {
+                shell::remove_function(name.as_str());
+            },
+            Flags::Context => {
+                shell::remove_context(name.as_str());
+            },
+        }
     }
 
 
@@ -536,14 +538,13 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.as_ref().unwrap().word.len() == pos {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('=') {
-        shell::add_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str());
-        return Ok(());
-    }
-    
-    let name = command.suffix.as_ref().unwrap().word[pos].as_str();
-    if !shell::set_readonly_var(name) {
-        return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("readonly: {}: no such variable", name)));
+    for word in command.suffix.as_ref().unwrap().word[pos..].iter() {
+        if word.contains('=') {
+            shell::add_readonly_var(word.as_str());
+        }
+        else if !shell::set_readonly_var(word.as_str()) {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("readonly: {}: no such variable", word)));
+        }
     }
 
     Ok(())
-- 
2.43.0


From b7f254b5005d69b1d8da50dd430da0064fc8ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:24:24 +0000
Subject: [PATCH 49/58] fix: the arguments of a sourced file are gone
 afterwards

---
 src/builtins.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 68b91a6..99687a1 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -14,7 +14,7 @@ use crate::trap;
 use crate::eval;
 use crate::log;
 use crate::context::ContextUtils;
-use crate::context::Context;
+use crate::context::{Context, Var};
 use crate::jobs::Process;
 
 use std::rc::Rc;
@@ -679,10 +679,6 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
         Vec::new()
     };
 
-    for (pos, arg) in args.iter().enumerate() {
-        shell::add_var_context(&format!("{}={}", pos + 1, arg));
-    }
-
     // Open the file directly if it has a slash
     let mut file = if filename.contains('/') {
         File::open(&filename)
@@ -711,7 +707,27 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     };
 
     log!("AST: {:?}", ast);
-    match eval::eval(&mut ast) {
+    // The arguments are only there for the file, so whatever they hide comes back afterwards
+    let context = shell::get_current_context();
+    let mut hidden = Vec::new();
+    for (pos, arg) in args.iter().enumerate() {
+        let name = (pos + 1).to_string();
+        hidden.push((name.clone(), context.borrow().get_var(&name)));
+        context.borrow_mut().add_var(Var::new(&name, arg));
+    }
+    let result = eval::eval(&mut ast);
+    for (name, var) in hidden {
+        match var {
+            Some(var) => {
+                context.borrow_mut().vars.insert(name, var);
+            },
+            None => {
+                context.borrow_mut().remove_var(&name);
+            },
+        }
+    }
+
+    match result {
         Ok(_) => {},
         Err(e) => {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating string: {}", e)));
-- 
2.43.0


From 12bef57d44f88d07a766c68f12e651e8d4f31a7a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 50/58] fix: a current directory that is gone or has no proper
 name is no reason not to start

---
 Cargo.lock     | 946 +++++++++++++++++++++++++++++++++++++++++++++----
 src/context.rs |   2 +-
 src/shell.rs   |   2 +-
 3 files changed, 884 insertions(+), 66 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index b98862d..6a0bd8a 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "aho-corasick"
@@ -11,6 +11,21 @@ dependencies = [
  "memchr",
 ]
 
+[[package]]
+name = "android_system_properties"
+version = "0.1.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ae221649c9976a6f6c56ae1facf410f3ddb33cc661c4b7b61020a912d4237fbc"
+dependencies = [
+ "libc",
+]
+
+[[package]]
+name = "arrayvec"
+version = "0.7.8"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d3fb67a6e08acf24fdeccbac2cb6ac4305825bd1f117462e0e6f2f193345ad56"
+
 [[package]]
 name = "ascii-canvas"
 version = "3.0.0"
@@ -37,6 +52,12 @@ version = "1.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "d468802bab17cbc0cc575e9b053f41e72aa36bfa6b7f55e3529ffa43161b97fa"
 
+[[package]]
+name = "beef"
+version = "0.5.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3a8241f3ebb85c056b509d4327ad0358fbbba6ffb340bf388f26350aeda225b1"
+
 [[package]]
 name = "bit-set"
 version = "0.5.3"
@@ -58,6 +79,18 @@ version = "1.3.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bef38d45163c2f1dde094a7dfd33ccf595c92905c8f8f4fdc18d06fb1037718a"
 
+[[package]]
+name = "bitflags"
+version = "2.13.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3ded4057c258ba199e2d26386d3af3780957ecaee6c4ef4041c6b4b8b97c0b06"
+
+[[package]]
+name = "bumpalo"
+version = "3.20.3"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "72f5acc6cb2ba439de613abc23857ec3d78374d8ed5ac84e9d11336e87da8649"
+
 [[package]]
 name = "cc"
 version = "1.0.79"
@@ -66,15 +99,33 @@ checksum = "50d30906286121d95be3d479533b458f87493b30a4b5f79a607db8f5d11aa91f"
 
 [[package]]
 name = "cfg-if"
-version = "0.1.10"
+version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "4785bdd1c96b2a846b2bd7cc02e86b6b3dbf14e7e53446c4f54c92a361040822"
+checksum = "baf1de4339761588bc0619e3cbc0120ee582ebb74b53b4efbf79117bd2da40fd"
 
 [[package]]
-name = "cfg-if"
-version = "1.0.0"
+name = "chrono"
+version = "0.4.45"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "baf1de4339761588bc0619e3cbc0120ee582ebb74b53b4efbf79117bd2da40fd"
+checksum = "1aa79e62e7697b8e29b513a68abacf485adcd1fe8284a4316c5ae868e6633327"
+dependencies = [
+ "iana-time-zone",
+ "js-sys",
+ "num-traits",
+ "wasm-bindgen",
+ "windows-link",
+]
+
+[[package]]
+name = "clipboard-win"
+version = "4.5.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7191c27c2357d9b7ef96baac1773290d4ca63b24205b82a3fd8a0637afcf0362"
+dependencies = [
+ "error-code",
+ "str-buf",
+ "winapi",
+]
 
 [[package]]
 name = "const_fn"
@@ -82,6 +133,68 @@ version = "0.4.9"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "fbdcdcb6d86f71c5e97409ad45898af11cbc995b4ee8112d59095a28d376c935"
 
+[[package]]
+name = "core-foundation-sys"
+version = "0.8.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "773648b94d0e5d620f64f280777445740e61fe701025087ec8b57f45c791888b"
+
+[[package]]
+name = "crossbeam"
+version = "0.8.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e71406cd8807725f7ac2f999a4cdd32e98f829fdf65f528343cebf945e41df1e"
+dependencies = [
+ "crossbeam-channel",
+ "crossbeam-deque",
+ "crossbeam-epoch",
+ "crossbeam-queue",
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-channel"
+version = "0.5.17"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "98b0cc327b5bc766e7fda9c9260cc0fa81b43a8e240440422dff70788e3f9ef1"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-deque"
+version = "0.8.8"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "622f3fc73690be383c7214310406f28a90e6edeadc3cea882f9d71e495b9711a"
+dependencies = [
+ "crossbeam-epoch",
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-epoch"
+version = "0.9.21"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dc74980687109a3b14c72fd458107bf0baa1da1a1a805e178d15501ba9b86d9d"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-queue"
+version = "0.3.14"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "03e8bd762f7479489c70ed6c768ddca99d7296857de437a68dcb2a94365b3fae"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-utils"
+version = "0.8.23"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a31eee39dddec8330830986fcd7625edb5a24ec90ea038215273bbc3adb08ac6"
+
 [[package]]
 name = "crunchy"
 version = "0.2.2"
@@ -89,40 +202,101 @@ source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "7a81dae078cea95a014a339291cec439d2f232ebe854a9d672b796c6afafa9b7"
 
 [[package]]
-name = "diff"
-version = "0.1.13"
+name = "darling"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "56254986775e3233ffa9c4d7d3faaf6d36a2c09d30b20687e9f88bc8bafc16c8"
+checksum = "7b750cb3417fd1b327431a470f388520309479ab0bf5e323505daf0290cd3850"
+dependencies = [
+ "darling_core",
+ "darling_macro",
+]
 
 [[package]]
-name = "dirs"
-version = "2.0.2"
+name = "darling_core"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "13aea89a5c93364a98e9b37b2fa237effbb694d5cfe01c5b70941f7eb087d5e3"
+checksum = "109c1ca6e6b7f82cc233a97004ea8ed7ca123a9af07a8230878fcfda9b158bf0"
 dependencies = [
- "cfg-if 0.1.10",
- "dirs-sys",
+ "fnv",
+ "ident_case",
+ "proc-macro2",
+ "quote",
+ "strsim",
+ "syn 1.0.109",
 ]
 
 [[package]]
-name = "dirs-next"
-version = "2.0.0"
+name = "darling_macro"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "b98cf8ebf19c3d1b223e151f99a4f9f0690dca41414773390fc824184ac833e1"
+checksum = "a4aab4dbc9f7611d8b55048a3a16d2d010c2c8334e46304b40ac1cc14bf3b48e"
 dependencies = [
- "cfg-if 1.0.0",
- "dirs-sys-next",
+ "darling_core",
+ "quote",
+ "syn 1.0.109",
 ]
 
 [[package]]
-name = "dirs-sys"
-version = "0.3.7"
+name = "defer-drop"
+version = "1.3.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "1b1d1d91c932ef41c0f2663aa8b0ca0342d444d842c06914aa0a7e352d0bada6"
+checksum = "f613ec9fa66a6b28cdb1842b27f9adf24f39f9afc4dcdd9fdecee4aca7945c57"
 dependencies = [
- "libc",
- "redox_users",
- "winapi",
+ "crossbeam-channel",
+ "once_cell",
+]
+
+[[package]]
+name = "deranged"
+version = "0.5.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e9de72ce2ad1f90dc62fa25f0f430ef85eb4b0d8fa0be4f30373bc40a21d28e"
+
+[[package]]
+name = "derive_builder"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d07adf7be193b71cc36b193d0f5fe60b918a3a9db4dad0449f57bcfd519704a3"
+dependencies = [
+ "derive_builder_macro",
+]
+
+[[package]]
+name = "derive_builder_core"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1f91d4cfa921f1c05904dc3c57b4a32c38aed3340cce209f3a6fd1478babafc4"
+dependencies = [
+ "darling",
+ "proc-macro2",
+ "quote",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "derive_builder_macro"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f0314b72bed045f3a68671b3c86328386762c93f82d98c65c3cb5e5f573dd68"
+dependencies = [
+ "derive_builder_core",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "diff"
+version = "0.1.13"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "56254986775e3233ffa9c4d7d3faaf6d36a2c09d30b20687e9f88bc8bafc16c8"
+
+[[package]]
+name = "dirs-next"
+version = "2.0.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b98cf8ebf19c3d1b223e151f99a4f9f0690dca41414773390fc824184ac833e1"
+dependencies = [
+ "cfg-if",
+ "dirs-sys-next",
 ]
 
 [[package]]
@@ -151,25 +325,101 @@ dependencies = [
  "log",
 ]
 
+[[package]]
+name = "endian-type"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c34f04666d835ff5d62e058c3995147c06f42fe86ff053337632bca83e42702d"
+
+[[package]]
+name = "errno"
+version = "0.3.14"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "39cab71617ae0d63f51a36d69f866391735b51691dbda63cf6f96d042b63efeb"
+dependencies = [
+ "libc",
+ "windows-sys 0.61.2",
+]
+
+[[package]]
+name = "error-code"
+version = "2.3.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "64f18991e7bf11e7ffee451b5318b5c1a73c52d0d0ada6e5a3017c8c1ced6a21"
+dependencies = [
+ "libc",
+ "str-buf",
+]
+
+[[package]]
+name = "fd-lock"
+version = "3.0.13"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ef033ed5e9bad94e55838ca0ca906db0e043f517adda0c8b79c7a8c66c93c1b5"
+dependencies = [
+ "cfg-if",
+ "rustix",
+ "windows-sys 0.48.0",
+]
+
 [[package]]
 name = "fixedbitset"
 version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "0ce7134b9999ecaf8bcd65542e436736ef32ddca1b3e06094cb6ec5755203b80"
 
+[[package]]
+name = "fnv"
+version = "1.0.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f9eec918d3f24069decb9af1554cad7c880e2da24a9afd88aca000531ab82c1"
+
 [[package]]
 name = "fragile"
 version = "2.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "6c2141d6d6c8512188a7891b4b01590a45f6dac67afb4f255c4124dbb86d4eaa"
 
+[[package]]
+name = "futures-core"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "92d699e522242e69e3003b94ecc1f960f3a5e015aa7c5d7486e65ad01dd94f5e"
+
+[[package]]
+name = "futures-task"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cd417de3d1d015fc3bfd2b1ea46dfc7bab72ef86f1cc7cc9c78e728b34a6d1fd"
+
+[[package]]
+name = "futures-util"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0d50a92467f8ba5dd6e3ee5d4bd04d73ab2e4e1c44474a0674821dfce14b79bc"
+dependencies = [
+ "futures-core",
+ "futures-task",
+ "pin-project-lite",
+ "slab",
+]
+
+[[package]]
+name = "fuzzy-matcher"
+version = "0.3.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "54614a3312934d066701a80f20f15fa3b56d67ac7722b39eea5b4c9dd1d66c94"
+dependencies = [
+ "thread_local",
+]
+
 [[package]]
 name = "getrandom"
 version = "0.2.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "c05aeb6a22b8f62540c194aac980f2115af067bfe15a0734d7277a768d396b31"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
  "libc",
  "wasi",
 ]
@@ -189,6 +439,36 @@ dependencies = [
  "libc",
 ]
 
+[[package]]
+name = "iana-time-zone"
+version = "0.1.65"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e31bc9ad994ba00e440a8aa5c9ef0ec67d5cb5e5cb0cc7f8b744a35b389cc470"
+dependencies = [
+ "android_system_properties",
+ "core-foundation-sys",
+ "iana-time-zone-haiku",
+ "js-sys",
+ "log",
+ "wasm-bindgen",
+ "windows-core",
+]
+
+[[package]]
+name = "iana-time-zone-haiku"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f31827a206f56af32e590ba56d5d2d085f558508192593743f16b2306495269f"
+dependencies = [
+ "cc",
+]
+
+[[package]]
+name = "ident_case"
+version = "1.0.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b9e0384b61958566e926dc50660321d12159025e767c18e043daf26b70104c39"
+
 [[package]]
 name = "indexmap"
 version = "1.9.2"
@@ -208,6 +488,17 @@ dependencies = [
  "either",
 ]
 
+[[package]]
+name = "js-sys"
+version = "0.3.107"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8dc09d2154098bbf4ef54eab6b117a3c24cbbffe94046b16ee6d6d4510584d3a"
+dependencies = [
+ "cfg-if",
+ "futures-util",
+ "wasm-bindgen",
+]
+
 [[package]]
 name = "lalrpop"
 version = "0.19.8"
@@ -248,9 +539,9 @@ checksum = "e2abad23fbc42b3700f2f279844dc832adb2b2eb069b2df918f455c4e18cc646"
 
 [[package]]
 name = "libc"
-version = "0.2.139"
+version = "0.2.191"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "201de327520df007757c1f0adce6e827fe8562fbc28bfd9c15571c66ca1f5f79"
+checksum = "65cd87c9a6d60536580b316ad985726104730a5151c99845f2490428ef91240a"
 
 [[package]]
 name = "likely_stable"
@@ -262,6 +553,12 @@ dependencies = [
  "rustc_version",
 ]
 
+[[package]]
+name = "linux-raw-sys"
+version = "0.4.15"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d26c52dbd32dccf2d10cac7725f8eae5296885fb5703b261f7d0a0739ec807ab"
+
 [[package]]
 name = "lock_api"
 version = "0.4.9"
@@ -278,7 +575,7 @@ version = "0.4.17"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "abb12e687cfb44aa40f41fc3978ef76448f9b6038cad6aef4259d3c095a2382e"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
 ]
 
 [[package]]
@@ -287,6 +584,15 @@ version = "2.5.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "2dffe52ecf27772e601905b7522cb4ef790d2cc203488bbd0e2fe85fcb74566d"
 
+[[package]]
+name = "memoffset"
+version = "0.6.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5aa361d4faea93603064a027415f07bd8e1d5c88c9fbf68bf56a285428fd79ce"
+dependencies = [
+ "autocfg",
+]
+
 [[package]]
 name = "memoffset"
 version = "0.7.1"
@@ -302,17 +608,38 @@ version = "1.0.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "e4a24736216ec316047a1fc4252e27dabb04218aa4a3f37c6e7ddbf1f9782b54"
 
+[[package]]
+name = "nibble_vec"
+version = "0.1.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "77a5d83df9f36fe23f0c3648c6bbb8b0298bb5f1939c8f2704431371f4b84d43"
+dependencies = [
+ "smallvec",
+]
+
 [[package]]
 name = "nix"
-version = "0.14.1"
+version = "0.24.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "6c722bee1037d430d0f8e687bbdbf222f27cc6e4e68d5caf630857bb2b6dbdce"
+checksum = "fa52e972a9a719cecb6864fb88568781eb706bac2cd1d4f04a648542dbf78069"
 dependencies = [
- "bitflags",
- "cc",
- "cfg-if 0.1.10",
+ "bitflags 1.3.2",
+ "cfg-if",
  "libc",
- "void",
+]
+
+[[package]]
+name = "nix"
+version = "0.25.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f346ff70e7dbfd675fe90590b92d59ef2de15a8779ae305ebcbfd3f0caf59be4"
+dependencies = [
+ "autocfg",
+ "bitflags 1.3.2",
+ "cfg-if",
+ "libc",
+ "memoffset 0.6.5",
+ "pin-utils",
 ]
 
 [[package]]
@@ -321,14 +648,29 @@ version = "0.26.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bfdda3d196821d6af13126e40375cdf7da646a96114af134d5f417a9a1dc8e1a"
 dependencies = [
- "bitflags",
- "cfg-if 1.0.0",
+ "bitflags 1.3.2",
+ "cfg-if",
  "libc",
- "memoffset",
+ "memoffset 0.7.1",
  "pin-utils",
  "static_assertions",
 ]
 
+[[package]]
+name = "num-conv"
+version = "0.2.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "521739c6d2bac4aa25192232afe6841231376b2b26d4d9fae5ecf8ca5772e441"
+
+[[package]]
+name = "num-traits"
+version = "0.2.19"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "071dfc062690e90b734c0b2273ce72ad0ffa95f0c74596bc250dcfd960262841"
+dependencies = [
+ "autocfg",
+]
+
 [[package]]
 name = "once_cell"
 version = "1.17.1"
@@ -351,11 +693,11 @@ version = "0.9.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "9069cbb9f99e3a5083476ccb29ceb1de18b9118cafa53e90c9551235de2b9521"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
  "libc",
  "redox_syscall",
  "smallvec",
- "windows-sys",
+ "windows-sys 0.45.0",
 ]
 
 [[package]]
@@ -393,12 +735,24 @@ version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "db8bcd96cb740d03149cbad5518db9fd87126a10ab519c011893b1754134c468"
 
+[[package]]
+name = "pin-project-lite"
+version = "0.2.17"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a89322df9ebe1c1578d689c92318e070967d1042b512afbe49518723f4e6d5cd"
+
 [[package]]
 name = "pin-utils"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8b870d8c151b6f2fb93e84a13146138f05d02ed11c7e7c54f8826aaaf7c9f184"
 
+[[package]]
+name = "powerfmt"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4a6394b9e965e73d0a289ee54f589087e2c676aedf60885baf52c76b771e4958"
+
 [[package]]
 name = "precomputed-hash"
 version = "0.1.1"
@@ -407,29 +761,59 @@ checksum = "925383efa346730478fb4838dbe9137d2a47675ad789c546d150a6e1dd4ab31c"
 
 [[package]]
 name = "proc-macro2"
-version = "1.0.51"
+version = "1.0.107"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "5d727cae5b39d21da60fa540906919ad737832fe0b1c165da3a34d6548c849d6"
+checksum = "985e7ec9bb745e6ce6535b544d84d6cd6f7ad8bd711c398938ae983b91a766d9"
 dependencies = [
  "unicode-ident",
 ]
 
 [[package]]
 name = "quote"
-version = "1.0.23"
+version = "1.0.47"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "8856d8364d252a14d474036ea1358d63c9e6965c8e5c1885c18f73d70bff9c7b"
+checksum = "1fbf4db142a473a8d80c26bbf18454ed458bf8d26c8219c331daecfdbd079001"
 dependencies = [
  "proc-macro2",
 ]
 
+[[package]]
+name = "radix_trie"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c069c179fcdc6a2fe24d8d18305cf085fdbd4f922c041943e203685d6a1c58fd"
+dependencies = [
+ "endian-type",
+ "nibble_vec",
+]
+
+[[package]]
+name = "rayon"
+version = "1.12.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fb39b166781f92d482534ef4b4b1b2568f42613b53e5b6c160e24cfbfa30926d"
+dependencies = [
+ "either",
+ "rayon-core",
+]
+
+[[package]]
+name = "rayon-core"
+version = "1.13.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "22e18b0f0062d30d4230b2e85ff77fdfe4326feb054b9783a3460d8435c8ab91"
+dependencies = [
+ "crossbeam-deque",
+ "crossbeam-utils",
+]
+
 [[package]]
 name = "redox_syscall"
 version = "0.2.16"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "fb5a58c1855b4b6819d59012155603f0b22ad30cad752600aadfcb695265519a"
 dependencies = [
- "bitflags",
+ "bitflags 1.3.2",
 ]
 
 [[package]]
@@ -468,6 +852,7 @@ dependencies = [
  "lalrpop",
  "lalrpop-util",
  "lazy_static",
+ "libc",
  "likely_stable",
  "nix 0.26.2",
  "regex",
@@ -484,6 +869,19 @@ dependencies = [
  "semver",
 ]
 
+[[package]]
+name = "rustix"
+version = "0.38.44"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fdb5bc1ae2baa591800df16c9ca78619bf65c0488b41b96ccec5d11220d8c154"
+dependencies = [
+ "bitflags 2.13.2",
+ "errno",
+ "libc",
+ "linux-raw-sys",
+ "windows-sys 0.59.0",
+]
+
 [[package]]
 name = "rustversion"
 version = "1.0.11"
@@ -492,22 +890,40 @@ checksum = "5583e89e108996506031660fe09baa5011b9dd0341b89029313006d1fb508d70"
 
 [[package]]
 name = "rustyline"
-version = "5.0.6"
+version = "11.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "a23cb19702a8d6afb6edb3c842386e680d4883760e0df74e6848e23c2a87a635"
+checksum = "5dfc8644681285d1fb67a467fb3021bfea306b99b4146b166a1fe3ada965eece"
 dependencies = [
- "cfg-if 0.1.10",
- "dirs",
+ "bitflags 1.3.2",
+ "cfg-if",
+ "clipboard-win",
+ "dirs-next",
+ "fd-lock",
  "libc",
  "log",
  "memchr",
- "nix 0.14.1",
+ "nix 0.26.2",
+ "radix_trie",
+ "rustyline-derive",
+ "scopeguard",
+ "skim",
  "unicode-segmentation",
  "unicode-width",
  "utf8parse",
  "winapi",
 ]
 
+[[package]]
+name = "rustyline-derive"
+version = "0.8.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8218eaf5d960e3c478a1b0f129fa888dd3d8d22eb3de097e9af14c1ab4438024"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 1.0.109",
+]
+
 [[package]]
 name = "scopeguard"
 version = "1.1.0"
@@ -532,6 +948,26 @@ dependencies = [
  "pest",
 ]
 
+[[package]]
+name = "serde_core"
+version = "1.0.229"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "67dca2c9c51e58a4791a4b1ed58308b39c64224d349a935ab5039aa360942a48"
+dependencies = [
+ "serde_derive",
+]
+
+[[package]]
+name = "serde_derive"
+version = "1.0.229"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e7a5d71263a5a7d47b41f6b3f06ba276f10cc18b0931f1799f710578e2309348"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 3.0.9",
+]
+
 [[package]]
 name = "signal-hook"
 version = "0.3.15"
@@ -557,6 +993,37 @@ version = "0.3.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "7bd3e3206899af3f8b12af284fafc038cc1dc2b41d1b89dd17297221c5d225de"
 
+[[package]]
+name = "skim"
+version = "0.10.4"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e5d28de0a6cb2cdd83a076f1de9d965b973ae08b244df1aa70b432946dda0f32"
+dependencies = [
+ "beef",
+ "bitflags 1.3.2",
+ "chrono",
+ "crossbeam",
+ "defer-drop",
+ "derive_builder",
+ "fuzzy-matcher",
+ "lazy_static",
+ "log",
+ "nix 0.25.1",
+ "rayon",
+ "regex",
+ "time",
+ "timer",
+ "tuikit",
+ "unicode-width",
+ "vte",
+]
+
+[[package]]
+name = "slab"
+version = "0.4.12"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0c790de23124f9ab44544d7ac05d60440adc586479ce501c1d6d7da3cd8c9cf5"
+
 [[package]]
 name = "smallvec"
 version = "1.10.0"
@@ -569,6 +1036,12 @@ version = "1.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "a2eb9349b6444b326872e140eb1cf5e7c522154d69e7a0ffb0fb81c06b37543f"
 
+[[package]]
+name = "str-buf"
+version = "1.0.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e08d8363704e6c71fc928674353e6b7c23dcea9d82d7012c8faf2a3a025f8d0"
+
 [[package]]
 name = "string_cache"
 version = "0.8.6"
@@ -582,6 +1055,12 @@ dependencies = [
  "precomputed-hash",
 ]
 
+[[package]]
+name = "strsim"
+version = "0.10.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "73473c0e59e6d5812c5dfe2a064a6444949f089e20eec9a2e5506596494e4623"
+
 [[package]]
 name = "syn"
 version = "1.0.109"
@@ -593,6 +1072,28 @@ dependencies = [
  "unicode-ident",
 ]
 
+[[package]]
+name = "syn"
+version = "2.0.119"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "872831b642d1a07999a962a351ed35b955ea2cfc8f3862091e2a240a84f17297"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "unicode-ident",
+]
+
+[[package]]
+name = "syn"
+version = "3.0.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d78c8dee4c7bf0e14673097256fed6142ce9d3b85a408189d07482442145823b"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "unicode-ident",
+]
+
 [[package]]
 name = "term"
 version = "0.7.0"
@@ -621,7 +1122,44 @@ checksum = "1fb327af4685e4d03fa8cbcf1716380da910eeb2bb8be417e7f9fd3fb164f36f"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "thread_local"
+version = "1.1.10"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1ad99c4c6d32803332c548b1af0540b357b3f5fc0be8f6c6bfe8b2e6ae784070"
+dependencies = [
+ "cfg-if",
+]
+
+[[package]]
+name = "time"
+version = "0.3.55"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cdb87b95ec50ddfa440816d227a17b2ccbdda963a316a727fda0fc4334f7d134"
+dependencies = [
+ "deranged",
+ "num-conv",
+ "powerfmt",
+ "serde_core",
+ "time-core",
+]
+
+[[package]]
+name = "time-core"
+version = "0.1.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e1c906769ad99c88eaa54e728060edef082f8e358ff32030cb7c7d315e81109"
+
+[[package]]
+name = "timer"
+version = "0.2.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "31d42176308937165701f50638db1c31586f183f1aab416268216577aec7306b"
+dependencies = [
+ "chrono",
 ]
 
 [[package]]
@@ -633,6 +1171,20 @@ dependencies = [
  "crunchy",
 ]
 
+[[package]]
+name = "tuikit"
+version = "0.5.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5e19c6ab038babee3d50c8c12ff8b910bdb2196f62278776422f50390d8e53d8"
+dependencies = [
+ "bitflags 1.3.2",
+ "lazy_static",
+ "log",
+ "nix 0.24.3",
+ "term",
+ "unicode-width",
+]
+
 [[package]]
 name = "ucd-trie"
 version = "0.1.5"
@@ -665,15 +1217,30 @@ checksum = "f962df74c8c05a667b5ee8bcf162993134c104e96440b663c8daa176dc772d8c"
 
 [[package]]
 name = "utf8parse"
-version = "0.1.1"
+version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "8772a4ccbb4e89959023bc5b7cb8623a795caa7092d99f3aa9501b9484d4557d"
+checksum = "06abde3611657adf66d383f00b093d7faecc7fa57071cce2578660c9f1010821"
 
 [[package]]
-name = "void"
-version = "1.0.2"
+name = "vte"
+version = "0.11.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "6a02e4885ed3bc0f2de90ea6dd45ebcbb66dacffe03547fadbb0eeae2770887d"
+checksum = "f5022b5fbf9407086c180e9557be968742d839e68346af7792b8592489732197"
+dependencies = [
+ "arrayvec",
+ "utf8parse",
+ "vte_generate_state_changes",
+]
+
+[[package]]
+name = "vte_generate_state_changes"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2e369bee1b05d510a7b4ed645f5faa90619e05437111783ea5848f28d97d3c2e"
+dependencies = [
+ "proc-macro2",
+ "quote",
+]
 
 [[package]]
 name = "wasi"
@@ -681,6 +1248,50 @@ version = "0.11.0+wasi-snapshot-preview1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "9c8d87e72b64a3b4db28d11ce29237c246188f4f51057d65a7eab63b7987e423"
 
+[[package]]
+name = "wasm-bindgen"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a0181c14ddd6c7b8b0b0132a5f1ea2f32be0d893cd3ea97b6e3b28886b8a3d1c"
+dependencies = [
+ "cfg-if",
+ "rustversion",
+ "wasm-bindgen-macro",
+ "wasm-bindgen-shared",
+]
+
+[[package]]
+name = "wasm-bindgen-macro"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6e931a02a39abdbf66966fc35902b5ed58344750a70885bed4ebb3d8eaf28ed9"
+dependencies = [
+ "quote",
+ "wasm-bindgen-macro-support",
+]
+
+[[package]]
+name = "wasm-bindgen-macro-support"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2ca4b54280e455bd831e33a6b8e734baf432fe63fbc35c42ac14ce67a043a53a"
+dependencies = [
+ "bumpalo",
+ "proc-macro2",
+ "quote",
+ "syn 3.0.9",
+ "wasm-bindgen-shared",
+]
+
+[[package]]
+name = "wasm-bindgen-shared"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3b1f9c3798725016c6ee5f2f57869ec0831e8bbc0ab0310a86e787e97f41389e"
+dependencies = [
+ "unicode-ident",
+]
+
 [[package]]
 name = "winapi"
 version = "0.3.9"
@@ -703,13 +1314,99 @@ version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "712e227841d057c1ee1cd2fb22fa7e5a5461ae8e48fa2ca79ec42cfc1931183f"
 
+[[package]]
+name = "windows-core"
+version = "0.62.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b8e83a14d34d0623b51dce9581199302a221863196a1dde71a7663a4c2be9deb"
+dependencies = [
+ "windows-implement",
+ "windows-interface",
+ "windows-link",
+ "windows-result",
+ "windows-strings",
+]
+
+[[package]]
+name = "windows-implement"
+version = "0.60.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "053e2e040ab57b9dc951b72c264860db7eb3b0200ba345b4e4c3b14f67855ddf"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 2.0.119",
+]
+
+[[package]]
+name = "windows-interface"
+version = "0.59.3"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f316c4a2570ba26bbec722032c4099d8c8bc095efccdc15688708623367e358"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 2.0.119",
+]
+
+[[package]]
+name = "windows-link"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f0805222e57f7521d6a62e36fa9163bc891acd422f971defe97d64e70d0a4fe5"
+
+[[package]]
+name = "windows-result"
+version = "0.4.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7781fa89eaf60850ac3d2da7af8e5242a5ea78d1a11c49bf2910bb5a73853eb5"
+dependencies = [
+ "windows-link",
+]
+
+[[package]]
+name = "windows-strings"
+version = "0.5.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7837d08f69c77cf6b07689544538e017c1bfcf57e34b4c0ff58e6c2cd3b37091"
+dependencies = [
+ "windows-link",
+]
+
 [[package]]
 name = "windows-sys"
 version = "0.45.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "75283be5efb2831d37ea142365f009c02ec203cd29a3ebecbc093d52315b66d0"
 dependencies = [
- "windows-targets",
+ "windows-targets 0.42.1",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.48.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "677d2418bec65e3338edb076e806bc1ec15693c5d0104683f2efe857f61056a9"
+dependencies = [
+ "windows-targets 0.48.5",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.59.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1e38bc4d79ed67fd075bcc251a1c39b32a1776bbe92e5bef1f0bf1f8c531853b"
+dependencies = [
+ "windows-targets 0.52.6",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.61.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ae137229bcbd6cdf0f7b80a31df61766145077ddf49416a728b02cb3921ff3fc"
+dependencies = [
+ "windows-link",
 ]
 
 [[package]]
@@ -718,13 +1415,44 @@ version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8e2522491fbfcd58cc84d47aeb2958948c4b8982e9a2d8a2a35bbaed431390e7"
 dependencies = [
- "windows_aarch64_gnullvm",
- "windows_aarch64_msvc",
- "windows_i686_gnu",
- "windows_i686_msvc",
- "windows_x86_64_gnu",
- "windows_x86_64_gnullvm",
- "windows_x86_64_msvc",
+ "windows_aarch64_gnullvm 0.42.1",
+ "windows_aarch64_msvc 0.42.1",
+ "windows_i686_gnu 0.42.1",
+ "windows_i686_msvc 0.42.1",
+ "windows_x86_64_gnu 0.42.1",
+ "windows_x86_64_gnullvm 0.42.1",
+ "windows_x86_64_msvc 0.42.1",
+]
+
+[[package]]
+name = "windows-targets"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9a2fa6e2155d7247be68c096456083145c183cbbbc2764150dda45a87197940c"
+dependencies = [
+ "windows_aarch64_gnullvm 0.48.5",
+ "windows_aarch64_msvc 0.48.5",
+ "windows_i686_gnu 0.48.5",
+ "windows_i686_msvc 0.48.5",
+ "windows_x86_64_gnu 0.48.5",
+ "windows_x86_64_gnullvm 0.48.5",
+ "windows_x86_64_msvc 0.48.5",
+]
+
+[[package]]
+name = "windows-targets"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9b724f72796e036ab90c1021d4780d4d3d648aca59e491e6b98e725b84e99973"
+dependencies = [
+ "windows_aarch64_gnullvm 0.52.6",
+ "windows_aarch64_msvc 0.52.6",
+ "windows_i686_gnu 0.52.6",
+ "windows_i686_gnullvm",
+ "windows_i686_msvc 0.52.6",
+ "windows_x86_64_gnu 0.52.6",
+ "windows_x86_64_gnullvm 0.52.6",
+ "windows_x86_64_msvc 0.52.6",
 ]
 
 [[package]]
@@ -733,38 +1461,128 @@ version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8c9864e83243fdec7fc9c5444389dcbbfd258f745e7853198f365e3c4968a608"
 
+[[package]]
+name = "windows_aarch64_gnullvm"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2b38e32f0abccf9987a4e3079dfb67dcd799fb61361e53e2882c3cbaf0d905d8"
+
+[[package]]
+name = "windows_aarch64_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "32a4622180e7a0ec044bb555404c800bc9fd9ec262ec147edd5989ccd0c02cd3"
+
 [[package]]
 name = "windows_aarch64_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "4c8b1b673ffc16c47a9ff48570a9d85e25d265735c503681332589af6253c6c7"
 
+[[package]]
+name = "windows_aarch64_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dc35310971f3b2dbbf3f0690a219f40e2d9afcf64f9ab7cc1be722937c26b4bc"
+
+[[package]]
+name = "windows_aarch64_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "09ec2a7bb152e2252b53fa7803150007879548bc709c039df7627cabbd05d469"
+
 [[package]]
 name = "windows_i686_gnu"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "de3887528ad530ba7bdbb1faa8275ec7a1155a45ffa57c37993960277145d640"
 
+[[package]]
+name = "windows_i686_gnu"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a75915e7def60c94dcef72200b9a8e58e5091744960da64ec734a6c6e9b3743e"
+
+[[package]]
+name = "windows_i686_gnu"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8e9b5ad5ab802e97eb8e295ac6720e509ee4c243f69d781394014ebfe8bbfa0b"
+
+[[package]]
+name = "windows_i686_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0eee52d38c090b3caa76c563b86c3a4bd71ef1a819287c19d586d7334ae8ed66"
+
 [[package]]
 name = "windows_i686_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bf4d1122317eddd6ff351aa852118a2418ad4214e6613a50e0191f7004372605"
 
+[[package]]
+name = "windows_i686_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f55c233f70c4b27f66c523580f78f1004e8b5a8b659e05a4eb49d4166cca406"
+
+[[package]]
+name = "windows_i686_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "240948bc05c5e7c6dabba28bf89d89ffce3e303022809e73deaefe4f6ec56c66"
+
 [[package]]
 name = "windows_x86_64_gnu"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "c1040f221285e17ebccbc2591ffdc2d44ee1f9186324dd3e84e99ac68d699c45"
 
+[[package]]
+name = "windows_x86_64_gnu"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "53d40abd2583d23e4718fddf1ebec84dbff8381c07cae67ff7768bbf19c6718e"
+
+[[package]]
+name = "windows_x86_64_gnu"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "147a5c80aabfbf0c7d901cb5895d1de30ef2907eb21fbbab29ca94c5b08b1a78"
+
 [[package]]
 name = "windows_x86_64_gnullvm"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "628bfdf232daa22b0d64fdb62b09fcc36bb01f05a3939e20ab73aaf9470d0463"
 
+[[package]]
+name = "windows_x86_64_gnullvm"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0b7b52767868a23d5bab768e390dc5f5c55825b6d30b86c844ff2dc7414044cc"
+
+[[package]]
+name = "windows_x86_64_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "24d5b23dc417412679681396f2b49f3de8c1473deb516bd34410872eff51ed0d"
+
 [[package]]
 name = "windows_x86_64_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "447660ad36a13288b1db4d4248e857b510e8c3a225c822ba4fb748c0aafecffd"
+
+[[package]]
+name = "windows_x86_64_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ed94fce61571a4006852b7389a063ab983c02eb1bb37b47f8272ce92d06d9538"
+
+[[package]]
+name = "windows_x86_64_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "589f6da84c646204747d1270a2a5661ea66ed1cced2631d546fdfb155959f9ec"
diff --git a/src/context.rs b/src/context.rs
index 817455d..feb681a 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -436,7 +436,7 @@ impl Default for ContextManager {
             vars.insert("PATH".to_owned(), Rc::new(RefCell::new(Var::new("PATH", "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"))));
         }
         if env::var("PWD").is_err() {//TODO: Change this to use a nix function that will be more reliable
-            vars.insert("PWD".to_owned(), Rc::new(RefCell::new(Var::new("PWD", nix::unistd::getcwd().unwrap().to_str().unwrap()))));
+            vars.insert("PWD".to_owned(), Rc::new(RefCell::new(Var::new("PWD", &nix::unistd::getcwd().unwrap_or_default().to_string_lossy()))));
         }
         vars.insert("PS1".to_owned(), Rc::new(RefCell::new(Var::new("PS1", ps1))));
         vars.insert("PS2".to_owned(), Rc::new(RefCell::new(Var::new("PS2", "> "))));
diff --git a/src/shell.rs b/src/shell.rs
index af8c6c9..c27039e 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -124,7 +124,7 @@ impl Shell {
             interactive: true,
             //var_data: VarData::new(),
             curr_directory: String::new(),
-            physical_directory: getcwd().unwrap(),
+            physical_directory: getcwd().unwrap_or_default(),
             jobctl: false,
             job_warning: 0,
             background_pid: Pid::from_raw(-1),
-- 
2.43.0


From 1710ec6528f0437872fa726527e3218811dad05d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 51/58] fix: cd finds a home directory that is not exported or
 not UTF-8

---
 src/builtins.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 99687a1..5caa505 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -7,7 +7,7 @@ use std::io::Write;
 use crate::ast::SimpleCommand;
 use crate::shell;
 use nix::unistd::Pid;
-use std::ffi::CString;
+use std::ffi::{CString, OsString};
 use std::os::unix::ffi::OsStrExt;
 use crate::jobs;
 use crate::trap;
@@ -43,11 +43,11 @@ fn parse_status(word: &str) -> Result<i32, std::io::Error> {
 pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
     
     trap::interrupts_off();
-    let path;
+    let path: OsString;
     if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
-        path = env::var("HOME").unwrap_or_default();
+        path = env::var_os("HOME").or(shell::expand_var("HOME").map(OsString::from)).unwrap_or_default();
     } else {
-        path = command.suffix.as_ref().unwrap().word[0].to_string();
+        path = command.suffix.as_ref().unwrap().word[0].clone().into();
     }
     let result = env::set_current_dir(path);
     trap::interrupts_on();
-- 
2.43.0


From 0d36e2450cb2b45c224bc00fa1afa6214d1cf5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 52/58] fix: output that cannot be written is an error of the
 command and does not end the shell

---
 src/builtins.rs | 31 ++++++++++++++-----------------
 src/log.rs      | 26 ++++++++++++++++++++++++++
 src/main.rs     |  4 ++--
 src/shell.rs    | 28 ++++++++++++++++++----------
 src/trap.rs     | 12 +++++-------
 5 files changed, 65 insertions(+), 36 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 5caa505..ab7cfef 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -8,7 +8,7 @@ use crate::ast::SimpleCommand;
 use crate::shell;
 use nix::unistd::Pid;
 use std::ffi::{CString, OsString};
-use std::os::unix::ffi::OsStrExt;
+use std::os::unix::ffi::{OsStrExt, OsStringExt};
 use crate::jobs;
 use crate::trap;
 use crate::eval;
@@ -93,9 +93,7 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'jobs' command of the shell.
 /// It prints out all of the jobs that are currently running.
 pub fn jobs() -> Result<(), std::io::Error> {
-    print!("{}", shell::display_jobs());
-    io::stdout().flush().unwrap();
-    Ok(())
+    log::write_fd(1, shell::display_jobs().as_bytes())
 }
 
 /// This is the 'fg' and 'bg' commands of the shell.
@@ -206,12 +204,10 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
 /// If the suffix is '-p', it will print out all of the current aliases.
 pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
-        shell::display_aliases();
-        return Ok(());
+        return shell::display_aliases();
     }
     if command.suffix.as_ref().unwrap().word[0] == "-p" {
-        shell::display_aliases();
-        return Ok(());
+        return shell::display_aliases();
     }
     
     for word in command.suffix.as_ref().unwrap().word.iter() {
@@ -288,10 +284,11 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0] == "-p" {
+        let mut list = String::new();
         env::vars_os().for_each(|(key, value)| {
-            println!("{}={}", key.to_string_lossy(), value.to_string_lossy());
+            list += &format!("{}={}\n", key.to_string_lossy(), value.to_string_lossy());
         });
-        return Ok(());
+        return log::write_fd(1, list.as_bytes());
     }
 
     let suffix = command.suffix.as_ref().unwrap();
@@ -407,8 +404,9 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
     let path = env::current_dir()?;
-    println!("{}", path.display());
-    Ok(())
+    let mut path = path.into_os_string().into_vec();
+    path.push(b'\n');
+    log::write_fd(1, &path)
 }
 
 enum Flags {
@@ -509,19 +507,19 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             Flags::Variable | Flags::Context => {
                 match flags {
                     Flags::Variable => {
-                        shell::print_readonly_vars();
+                        shell::print_readonly_vars()?;
                     },
                     Flags::Context => {
                         if command.suffix.as_ref().unwrap().word.len() == pos {
                             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
                         }
-                        shell::print_readonly_vars_context(command.suffix.as_ref().unwrap().word[pos].as_str());
+                        shell::print_readonly_vars_context(command.suffix.as_ref().unwrap().word[pos].as_str())?;
                     },
                     _ => {},
                 }
             },
             Flags::Function => {
-                shell::print_readonly_functions();
+                shell::print_readonly_functions()?;
             },
         }
         return Ok(());
@@ -529,8 +527,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     match flags {
         Flags::Function => {
-            shell::print_readonly_functions();
-            return Ok(());
+            return shell::print_readonly_functions();
         },
         _ => {},
     }
diff --git a/src/log.rs b/src/log.rs
index 11e1a77..13c344a 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -1,5 +1,31 @@
+use std::fs::File;
+use std::io::Write;
+use std::mem::ManuallyDrop;
+use std::os::unix::io::{FromRawFd, RawFd};
 use std::sync::atomic::{AtomicBool, Ordering};
 
+/// This function writes to a file descriptor without a buffer, so that nothing that could not be
+/// written turns up anywhere later.
+pub fn write_fd(fd: RawFd, text: &[u8]) -> std::io::Result<()> {
+    let mut file = ManuallyDrop::new(unsafe { File::from_raw_fd(fd) });
+    file.write_all(text)
+}
+
+/// These replace the macros of the standard library, which panic if nobody can receive a message.
+/// The tests keep those, as their output is captured.
+#[cfg(not(test))]
+macro_rules! println {
+    ($($arg:tt)*) => ({
+        let _ = crate::log::write_fd(1, (format!($($arg)*) + "\n").as_bytes());
+    })
+}
+#[cfg(not(test))]
+macro_rules! eprintln {
+    ($($arg:tt)*) => ({
+        let _ = crate::log::write_fd(2, (format!($($arg)*) + "\n").as_bytes());
+    })
+}
+
 static mut PRINT_OUT: AtomicBool = AtomicBool::new(false);
 
 pub fn set_print_out(value: bool) {
diff --git a/src/main.rs b/src/main.rs
index 4b83d7f..3031fc0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,5 @@
+#[macro_use]
+mod log;
 mod shell;
 mod completion;
 mod context;
@@ -8,8 +10,6 @@ mod eval;
 mod jobs;
 mod builtins;
 mod trap;
-#[macro_use]
-mod log;
 mod var;
 //mod eval_alt;
 //mod exec;
diff --git a/src/shell.rs b/src/shell.rs
index c27039e..171dbdf 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -188,10 +188,12 @@ impl Shell {
     }
 
     /// This function prints out all the aliases that are currently stored in the shell.
-    pub fn display_aliases(&self) {
+    pub fn display_aliases(&self) -> Result<(), std::io::Error> {
+        let mut list = String::new();
         for (key, value) in &self.aliases {
-            println!("alias {}='{}'", key, value);
+            list += &format!("alias {}='{}'\n", key, value);
         }
+        crate::log::write_fd(1, list.as_bytes())
     }
 
     /// This function checks to see if there are any jobs in the background.
@@ -427,9 +429,9 @@ pub fn remove_alias(alias: &str) {
 }
 
 /// This function prints out all the aliases in the shell.
-pub fn display_aliases() {
+pub fn display_aliases() -> Result<(), std::io::Error> {
     let shell = SHELL.get().borrow();
-    shell.display_aliases();
+    shell.display_aliases()
 }
 
 /// This is a wrapper function that saves the readline history.
@@ -652,17 +654,21 @@ pub fn expand_var(var: &str) -> Option<String> {
     let shell = SHELL.get().borrow();
     shell.expand_variable(var)
 }
-pub fn print_readonly_vars() {
+pub fn print_readonly_vars() -> Result<(), std::io::Error> {
     let shell = SHELL.get().borrow();
+    let mut list = String::new();
     shell.all_readonly_vars().iter().for_each(|var| {
-        println!("{}", var.1.borrow());
+        list += &format!("{}\n", var.1.borrow());
     });
+    crate::log::write_fd(1, list.as_bytes())
 }
-pub fn print_readonly_vars_context(namespace: &str) {
+pub fn print_readonly_vars_context(namespace: &str) -> Result<(), std::io::Error> {
     let shell = SHELL.get().borrow();
+    let mut list = String::new();
     shell.all_readonly_vars_context(namespace).iter().for_each(|var| {
-        println!("{}", var.1.borrow());
+        list += &format!("{}\n", var.1.borrow());
     });
+    crate::log::write_fd(1, list.as_bytes())
 }
 
 /// This function sets $0 to the script name.
@@ -693,9 +699,11 @@ pub fn remove_function(name: &str) {
 	let mut shell = SHELL.get().borrow_mut();
 	shell.remove_function(name);
 }
-pub fn print_readonly_functions() {
+pub fn print_readonly_functions() -> Result<(), std::io::Error> {
     let shell = SHELL.get().borrow();
+    let mut list = String::new();
     for name in shell.get_readonly_functions().iter() {
-        println!("{}", name);
+        list += &format!("{}\n", name);
     }
+    crate::log::write_fd(1, list.as_bytes())
 }
diff --git a/src/trap.rs b/src/trap.rs
index 80f150d..ee0779c 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -1,5 +1,5 @@
 use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};
-use std::io::{self,Write};
+use std::io;
 use nix::sys::signal;
 use nix::sys::signal::Signal;
 use std::os::raw::c_int;
@@ -345,14 +345,12 @@ fn sig_chld(status: WaitStatus) {
     if job.as_ref().unwrap().borrow().background || stopped {
         match status {
             WaitStatus::Signaled(_, _, _) => {
-                let msg = format!("Job [{}] ({}) terminated by signal\n",job.as_ref().unwrap().borrow().job_id, pid);
-                std::io::stdout().write_all(&msg.as_bytes()).unwrap();
-                std::io::stdout().flush().unwrap();
+                let msg = format!("Job [{}] ({}) terminated by signal",job.as_ref().unwrap().borrow().job_id, pid);
+                println!("{}", msg);
             },
             WaitStatus::Stopped(_, _) => {
-                let msg = format!("Job [{}] ({}) stopped by signal\n",job.as_ref().unwrap().borrow().job_id, pid);
-                std::io::stdout().write_all(&msg.as_bytes()).unwrap();
-                std::io::stdout().flush().unwrap();
+                let msg = format!("Job [{}] ({}) stopped by signal",job.as_ref().unwrap().borrow().job_id, pid);
+                println!("{}", msg);
             },
             _ => {},
         }
-- 
2.43.0


From 93ebca2029e4e7453ea92f3b94023e37c696f141 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 53/58] fix: commands that are ended by a real-time signal are
 waited for like any other

---
 src/jobs.rs | 19 +++++++++++++++++--
 src/trap.rs |  4 ++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 32bc143..f73d5b8 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -1,8 +1,9 @@
 use std::ffi::CString;
 use nix::unistd::{self, Pid};
-use nix::sys::wait::{waitpid, WaitStatus, WaitPidFlag};
+use nix::sys::wait::{WaitStatus, WaitPidFlag};
 use nix::sys::signal;
 use nix::errno::Errno;
+use nix::libc;
 use std::fmt::{Display, Error, Formatter};
 use std::rc::Rc;
 use std::cell::RefCell;
@@ -669,6 +670,15 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
     return_pid
 }
 
+/// This function turns what waitpid says about a process into a WaitStatus.
+/// That has no place for the real-time signals: a process that was ended by one has ended with the status it stands for.
+pub fn wait_status(pid: Pid, status: i32) -> Result<WaitStatus, Errno> {
+    match WaitStatus::from_raw(pid, status) {
+        Err(_) if libc::WIFSIGNALED(status) => Ok(WaitStatus::Exited(pid, 128 + libc::WTERMSIG(status))),
+        result => result,
+    }
+}
+
 /// This is where we do a wait system call.
 ///If the result from waitpid is StillAlive we return the result. If the result is an Err but errno is EINTR we try again.
 /// Otherwise we break out of the inner loop. Then if the result is an error or the result is ok and we can get a pid from it or if block is not set then we break out of the outer loop.
@@ -686,7 +696,12 @@ pub fn wait_process(block: usize) -> Result<WaitStatus, Errno> {
     loop {
         trap::set_got_sigchld(false);
         loop {
-            result = waitpid(Pid::from_raw(-1), Some(flags));
+            let mut status = 0;
+            result = match unsafe { libc::waitpid(-1, &mut status, flags.bits()) } {
+                -1 => Err(Errno::last()),
+                0 => Ok(WaitStatus::StillAlive),
+                pid => wait_status(Pid::from_raw(pid), status),
+            };
             //eprintln!("waitpid result: {:?}", result);
 
             if result.is_ok() && result.unwrap() == WaitStatus::StillAlive {
diff --git a/src/trap.rs b/src/trap.rs
index ee0779c..f01977e 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -11,7 +11,7 @@ use fragile::Fragile;
 use std::cell::{Cell,RefCell};
 use std::cell::{Ref,RefMut};
 
-use crate::jobs::{self,JobState};
+use crate::jobs::{self,wait_status,JobState};
 use crate::shell;
 use crate::shell::ShellJobUtils;
 
@@ -293,7 +293,7 @@ pub fn handle_children() {
         }
         for (pid, status) in &COLLECTED[..count] {
             let pid = Pid::from_raw(pid.load(Ordering::Relaxed));
-            if let Ok(status) = WaitStatus::from_raw(pid, status.load(Ordering::Relaxed)) {
+            if let Ok(status) = wait_status(pid, status.load(Ordering::Relaxed)) {
                 sig_chld(status);
             }
         }
-- 
2.43.0


From 379fa2c500b4a820f5a14fd05b9f9465ba4dd931 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:29:55 +0000
Subject: [PATCH 54/58] fix: readonly name=value of an exported variable
 changes it for commands as well

---
 src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index feb681a..1f435b0 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -297,6 +297,10 @@ impl ContextManager {
                     return;
                 }
                 context.borrow_mut().add_var_readonly(set);
+                if Self::is_exported(name) {
+                    let value = set.split_once("=").map_or("", |(_, value)| value);
+                    self.export_var(name, value);
+                }
                 return;
             }
         }
-- 
2.43.0


From 709df9ce133611deeacdacc0380a48f664943277 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:30:19 +0000
Subject: [PATCH 55/58] fix: readonly -p lists every readonly variable when
 namespaces have some of the same name

---
 src/context.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1f435b0..e44d45f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -380,10 +380,11 @@ impl ContextManager {
                 }
             }
         }
-        for (_,context) in &self.exported_contexts {
+        for (namespace,context) in &self.exported_contexts {
             for (name, var) in &context.borrow().vars {
-                if var.borrow().readonly {
-                    vars.insert(name.clone(), var.clone());
+                // a namespace can have a variable of the same name, or be one of the contexts of the stack
+                if var.borrow().readonly && !vars.values().any(|other| Rc::ptr_eq(other, var)) {
+                    vars.insert(format!("{}\0{}", name, namespace), var.clone());
                 }
             }
         }
-- 
2.43.0


From 211f7b3c3f0e58370f2a43805125934c48c49c67 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:34:44 +0000
Subject: [PATCH 56/58] fix: an assignment sees the ones before it on the same
 line

---
 src/ast.rs      | 15 ++++++++++++---
 src/builtins.rs |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index a29c469..e545530 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -290,9 +290,10 @@ impl SimpleCommand {
         let mut redirects: Vec<&mut IoRedirect> = Vec::new();
 
         if let Some(prefix) = self.prefix.as_mut() {
-            for word in prefix.assignment.iter_mut() {
-                if let Some((var, val)) = word.split_once('=') {
-                    *word = format!("{}={}", var, Self::expand_word(val).join(" "));
+            // without a command each of them sees the ones before it, see builtins::assignment
+            if !self.name.is_empty() {
+                for word in prefix.assignment.iter_mut() {
+                    *word = Self::expand_assignment(word);
                 }
             }
             redirects.extend(prefix.io_redirect.iter_mut());
@@ -306,6 +307,14 @@ impl SimpleCommand {
         }
     }
 
+    /// Expands the value of an assignment.
+    pub fn expand_assignment(word: &str) -> String {
+        match word.split_once('=') {
+            Some((var, val)) => format!("{}={}", var, Self::expand_word(val).join(" ")),
+            None => word.to_string(),
+        }
+    }
+
     /// Expands a word into the words that it stands for.
     /// What comes out of an expansion is data: it is neither expanded again nor are quotes removed from it.
     fn expand_word(word: &str) -> Vec<String> {
diff --git a/src/builtins.rs b/src/builtins.rs
index ab7cfef..b8f7c0e 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -363,7 +363,7 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     eval::open_redirects(&command.prefix.as_ref().unwrap().io_redirect)?;
     for assignment in command.prefix.as_ref().unwrap().assignment.iter() {
-        shell::add_var_context(assignment.as_str());
+        shell::add_var_context(&SimpleCommand::expand_assignment(assignment));
     }
     Ok(())
 }
-- 
2.43.0


From 30b650ed05fab35647ea5d32648245126ba8baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:46:00 +0000
Subject: [PATCH 57/58] fix: a line that is not UTF-8 does not end the
 interactive shell

---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 3031fc0..263ccf8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -208,6 +208,11 @@ fn interactive_loop() {
             /*Err(ReadlineError::Errno(error)) => {
                 continue;
             },*/
+            // the line is not text, there may be others
+            Err(ReadlineError::Io(err)) if err.kind() == io::ErrorKind::InvalidData => {
+                eprintln!("Error: {}", err);
+                continue;
+            },
             Err(err) => {
                 println!("Readline Error: {:?}", err);
                 break;
-- 
2.43.0


From 4ed92412680be33b53933c0e34c0686b08247241 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 58/58] fix: exec takes its options in any order

'exec -a name -l command' used the last option as argument 0, and a third option was taken for the command.
---
 src/builtins.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index b8f7c0e..340d7de 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -559,6 +559,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut empty_env = false;
     let mut dash = false;
     let mut rename = false;
+    let mut name_pos = 0;
     let mut pos = 0;
     
     if suffix.word[0].starts_with('-') {
@@ -573,12 +574,13 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         if suffix.word[0].contains('a') {
             rename = true;
             pos = 2;
+            name_pos = pos - 1;
             if suffix.word.len() <= pos {
                 return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
             }
         }
     }
-    if pos > 0 && suffix.word.get(pos).map_or(false, |word| word.starts_with('-')) {
+    while pos > 0 && suffix.word.get(pos).map_or(false, |word| word.starts_with('-') && word.contains(['c', 'l', 'a'])) {
         let options = pos;
         if suffix.word[pos].contains('c') {
             empty_env = true;
@@ -591,6 +593,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         if suffix.word[options].contains('a') {
             rename = true;
             pos = options + 2;
+            name_pos = pos - 1;
             if suffix.word.len() <= pos {
                 return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
             }
@@ -609,9 +612,9 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         log!("i: {}, pos: {}", i, pos);
         log!("word: {}", suffix.word[i]);
         if i == pos && dash && rename {
-            let temp = "-".to_string() + suffix.word[pos - 1].as_str();
+            let temp = "-".to_string() + suffix.word[name_pos].as_str();
             args.push(CString::new(temp.as_str())?);
-            cmd += suffix.word[pos - 1].as_str();
+            cmd += suffix.word[name_pos].as_str();
             cmd += " ";
             continue;
         }
@@ -623,8 +626,8 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
             continue;
         }
         else if rename && i == pos {
-            cmd += suffix.word[pos - 1].as_str();
-            args.push(CString::new(suffix.word[pos - 1].as_str())?);
+            cmd += suffix.word[name_pos].as_str();
+            args.push(CString::new(suffix.word[name_pos].as_str())?);
             cmd += " ";
             continue;
         }
-- 
2.43.0

