pub(crate) extern "C" fn execute_gc(
    mut executor: &mut Executor,
    globals: &mut Globals,
) -> Option<Value> {
    // Reaching the poll point counts as interpreter progress: reset the
    // hang watchdog's countdown (no-op unless armed). See
    // doc/signal.md B+.
    crate::watchdog::poll();
    // `gc-stress`: force a collection at EVERY safepoint, unconditionally
    // — independent of the runtime `GC.stress` flag and of how this poll
    // was triggered. The guard re-arms the GC lane on every exit path, so
    // the poll word never rests at zero and no poll skips this function.
    #[cfg(feature = "gc-stress")]
    let _stress_rearm = crate::poll_flag::StressRearm;
    // Consume the PREEMPT lane first: whether this poll wants a
    // collection, a timeslice switch, or both is decided lane by lane —
    // a pure preempt tick never runs a spurious full GC. See
    // poll_flag.rs for the lane protocol.
    let preempt = crate::poll_flag::consume_preempt() || crate::preempt::stress();
    let current_exec = executor as *mut Executor;
    // Drain the pending-signal bitmap. The lowest-numbered pending signal
    // is consumed; any others observed in the same drain are dropped on
    // the floor (signo collisions in a single poll window are extremely
    // unlikely, and CRuby itself does not guarantee delivery of every
    // coalesced signal). The CODEGEN borrow is released before
    // dispatching so a trap handler (which JIT-compiles, GCs, …) can
    // re-enter freely. See doc/signal.md A6/A7.
    // Signal (trap-handler / default-exception) delivery happens only on
    // the MAIN green thread, matching CRuby: a signal arriving while a
    // non-main thread runs stays pending until main's next poll point.
    let pending = if crate::scheduler::signal_delivery_ok() {
        // Clear the SIGNAL lane *before* draining: a signal landing in
        // between re-arms both, costing one spurious poll; the reverse
        // order could drop the arming of a bit this drain never saw.
        crate::poll_flag::clear_signal();
        crate::codegen::signal_table::take_pending_signals()
    } else {
        // The signal stays pending for the main thread (or for a poll
        // outside the scheduler machinery). The SIGNAL lane is left
        // armed, which keeps the poll word non-zero: main still wakes
        // (an allocation-free `nil until flag` spin on main polls only
        // while the word is non-zero).
        0
    };
    // A pending signal this poll may not drain (delivery is gated to the
    // main thread outside scheduler entry points): skip the collection
    // for this poll. Running the GC here has been observed to corrupt
    // live state (a heap frame freed while a pending-signal drain is
    // still owed to main manifests as a wedged process at exit, spinning
    // in a swept frame — see the regression tests around
    // `process_kill_from_thread`); deferring the collection to the next
    // ungated poll is always safe, since the GC lane stays armed (only a
    // completed collection clears it).
    let deferred_signal = pending == 0 && crate::codegen::signal_table::has_pending_signals();
    if let Some(signo) = crate::codegen::signal_table::lowest_pending_signo(pending) {
        use crate::codegen::signal_table::{self, SignalDisposition};
        match globals.signal_disposition(signo) {
            // A user `Signal.trap` handler: invoke its `#call` at this
            // safepoint, passing the signo. The handler (Proc / Method /
            // any callable) stays a GC root via the trap table; a
            // non-callable raises NoMethodError here, matching CRuby.
            SignalDisposition::Handler(handler) => {
                let arg = Value::integer(signo as i64);
                let call = IdentId::get_id("call");
                if let Err(err) =
                    executor.invoke_method_inner(globals, call, handler, &[arg], None, None)
                {
                    executor.set_error(err);
                    return None;
                }
            }
            // Defensive: a SIG_IGN'd signal normally never sets its bit.
            SignalDisposition::Ignore { .. } => {}
            // No user handler: lower to the default exception (e.g.
            // SIGINT ⇒ Interrupt). Unmapped signals drain to nothing.
            SignalDisposition::Default | SignalDisposition::SystemDefault => {
                if let Some(err) = signal_table::signo_to_error(signo) {
                    executor.set_error(err);
                    return None;
                }
            }
        }
    }
    if (cfg!(feature = "gc-stress") || crate::poll_flag::gc_requested()) && !deferred_signal {
        // Forensics (`MONORUBY_GC_BREAK=N`): dump the trigger context of GC
        // #N — who called into the collector, from which executor, and what
        // the scheduler state was — right before that collection runs.
        let triggering_executor = executor as *const Executor;
        // Get root Executor.
        let mut fiber_depth = 0usize;
        while let Some(mut parent) = executor.parent_fiber {
            // SAFETY: parent_fiber is guaranteed to be a valid pointer to an Executor
            // that outlives this borrow. The parent fiber structure is maintained correctly.
            executor = unsafe { parent.as_mut() };
            fiber_depth += 1;
        }
        if let Some(break_at) = gc_break_at()
            && alloc::ALLOC.with(|a| a.borrow().gc_counter()) + 1 == break_at
        {
            eprintln!(
                "[GC-BREAK] GC #{break_at}: trigger_exec={:016x} root_exec={:016x} fiber_depth={fiber_depth}",
                triggering_executor as usize, executor as *const Executor as usize,
            );
            eprintln!(
                "[GC-BREAK] scheduler: {}",
                crate::scheduler::dump_state_for_gc()
            );
            eprintln!(
                "[GC-BREAK] backtrace:\n{}",
                std::backtrace::Backtrace::force_capture()
            );
        }
        alloc::ALLOC.with(|alloc| alloc.borrow_mut().gc(&Root { globals, executor }));
    }
    // Stress mode: re-arm the flag *before* a possible switch — `pass`
    // below transfers control to another thread, which must find the
    // flag armed or it would spin forever without ever polling (this
    // context's tail would only run once control returns here).
    crate::preempt::stress_renudge();
    // Timeslice preemption: behave as if the running thread called
    // `Thread.pass` at this safepoint. Skipped while the scheduler's own
    // machinery is on the stack (`preempt_ok`). An `Err` is a pending
    // interrupt delivered to this thread (kill / raise) — surface it
    // exactly like the signal path above.
    if preempt && crate::scheduler::preempt_ok() {
        // SAFETY: `current_exec` is the triggering executor passed into
        // this call; the root-walk above only reborrowed its parents.
        let vm = unsafe { &mut *current_exec };
        if let Err(err) = crate::scheduler::pass(vm, globals) {
            vm.set_error(err);
            return None;
        }
    }
    Some(Value::nil())
}
fn gc_break_at() -> Option<usize> {
    static AT: std::sync::OnceLock<Option<usize>> = std::sync::OnceLock::new();
    *AT.get_or_init(|| std::env::var("MONORUBY_GC_BREAK").ok()?.parse().ok())
}
