impl Executor {
    pub fn fiber_state(&self) -> FiberState {
        match self.rsp_save {
            None => FiberState::Created,
            Some(p) if p.as_ptr() as i64 == -1 => FiberState::Terminated,
            _ => FiberState::Suspended,
        }
    }

    pub fn save_rsp(&mut self, rsp: *mut u8) {
        self.rsp_save = Some(std::ptr::NonNull::new(rsp).unwrap());
    }

    /// Mark this fiber's executor dead without ever running (or after
    /// unwinding) its body — `Fiber#kill` on a created fiber.
    pub(crate) fn set_terminated(&mut self) {
        self.rsp_save = std::ptr::NonNull::new(-1i64 as *mut u8);
    }

    pub(crate) fn resuming_fiber(&self) -> Option<std::ptr::NonNull<Executor>> {
        self.resuming_fiber
    }

    pub(crate) fn set_resuming_fiber(&mut self, f: Option<std::ptr::NonNull<Executor>>) {
        self.resuming_fiber = f;
    }

    pub(crate) fn set_parent_fiber(&mut self, f: Option<std::ptr::NonNull<Executor>>) {
        self.parent_fiber = f;
    }

    pub(crate) fn is_yielding(&self) -> bool {
        self.yielding
    }

    pub(crate) fn set_yielding(&mut self, b: bool) {
        self.yielding = b;
    }

    pub(crate) fn is_fiber_blocking(&self) -> bool {
        self.fiber_blocking
    }

    pub(crate) fn set_fiber_blocking(&mut self, b: bool) {
        self.fiber_blocking = b;
    }

    pub(crate) fn set_killed(&mut self) {
        self.killed = true;
    }

    pub(crate) fn set_thread_root(&mut self, root: std::ptr::NonNull<Executor>) {
        self.thread_root = Some(root);
    }

    /// The root executor of the thread this executor runs on: itself for a
    /// root context, the recorded root for a fiber executor.
    pub(crate) fn thread_root_or_self(&self) -> std::ptr::NonNull<Executor> {
        self.thread_root
            .unwrap_or_else(|| std::ptr::NonNull::from(self))
    }

    pub(crate) fn thread_root(&self) -> Option<std::ptr::NonNull<Executor>> {
        self.thread_root
    }

    pub(crate) fn root_fiber_obj(&self) -> Option<Value> {
        self.root_fiber_obj
    }

    pub(crate) fn set_root_fiber_obj(&mut self, obj: Value) {
        self.root_fiber_obj = Some(obj);
    }

    pub(crate) fn inherited_storage(&self) -> Option<Value> {
        self.inherited_storage
    }

    pub(crate) fn set_inherited_storage(&mut self, storage: Value) {
        self.inherited_storage = Some(storage);
    }

    pub(crate) fn has_error(&self) -> bool {
        self.exception.is_some()
    }

    pub(crate) fn yield_fiber(&mut self, val: Value) -> Result<Value> {
        if self.parent_fiber.is_none() {
            return Err(MonorubyErr::fibererr(
                "attempt to yield on a not resumed fiber".to_string(),
            ));
        }
        let invoker = CODEGEN.with(|codegen| codegen.borrow().yield_fiber);
        match invoker(self as _, val) {
            Some(res) => Ok(res),
            // A null resume value is the exception-injection protocol
            // (`Fiber#raise` / `Fiber#kill` into a yielding fiber): the
            // injector stored the error in *this* fiber's executor before
            // switching in, exactly where the JIT-inlined yield's error
            // exit also reads it.
            None => {
                if self.has_error() {
                    Err(self.take_error())
                } else {
                    // SAFETY: parent_fiber is a valid Executor pointer while
                    // this fiber is suspended under its resumer.
                    Err(unsafe { self.parent_fiber.unwrap().as_mut().take_error() })
                }
            }
        }
    }
}

pub(crate) extern "C" fn fiber_on_terminate(child: &mut Executor) -> *mut Executor {
    child.set_terminated();
    let mut target = child.parent_fiber.unwrap_or_else(|| {
        let mut cur = child.thread_root_or_self();
        // SAFETY: resuming-chain members are suspended executors, valid
        // while their fibers are alive.
        while let Some(next) = unsafe { cur.as_ref() }.resuming_fiber() {
            cur = next;
        }
        cur
    });
    // The kill unwind of a killed fiber ends with it: nothing is relayed.
    if let Some(err) = std::mem::take(&mut child.exception)
        && !(child.killed && matches!(err.kind(), MonorubyErrKind::FiberKill))
    {
        // SAFETY: the return target is suspended (its context saved), so its
        // executor is valid and quiescent; its error slot is empty because a
        // suspended fiber cannot hold an in-flight exception.
        unsafe { target.as_mut().set_error(err) };
    }
    target.as_ptr()
}