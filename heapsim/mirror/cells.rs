#[derive(Clone, Copy, PartialEq, Eq)]
pub struct ObjTy(std::num::NonZeroU8);

impl std::fmt::Debug for ObjTy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let ty = self.0.get();
        write!(
            f,
            "{}",
            match ty {
                1 => "CLASS",
                2 => "MODULE",
                3 => "OBJECT",
                4 => "BIGNUM",
                5 => "FLOAT",
                6 => "STRING",
                7 => "TIME",
                8 => "ARRAY",
                9 => "RANGE",
                10 => "EXCEPTION",
                11 => "PROC",
                12 => "HASH",
                13 => "REGEXP",
                14 => "IO",
                15 => "METHOD",
                16 => "FIBER",
                17 => "ENUMERATOR",
                18 => "GENERATOR",
                19 => "COMPLEX",
                20 => "BINDING",
                21 => "UMETHOD",
                22 => "MATCHDATA",
                23 => "RATIONAL",
                24 => "STRUCT",
                25 => "ARITHMETIC_SEQUENCE",
                26 => "IO_BUFFER",
                27 => "THREAD",
                28 => "ARGF",
                29 => "FRAME",
                _ => return write!(f, "INVALID({ty})"),
            }
        )
    }
}

impl ObjTy {
    pub fn get(&self) -> u8 {
        self.0.get()
    }
}

impl ObjTy {
    pub const CLASS: Self = Self(std::num::NonZeroU8::new(1).unwrap());
    pub const MODULE: Self = Self(std::num::NonZeroU8::new(2).unwrap());
    pub const OBJECT: Self = Self(std::num::NonZeroU8::new(3).unwrap());
    pub const BIGNUM: Self = Self(std::num::NonZeroU8::new(4).unwrap());
    pub const FLOAT: Self = Self(std::num::NonZeroU8::new(5).unwrap());
    pub const STRING: Self = Self(std::num::NonZeroU8::new(6).unwrap());
    pub const TIME: Self = Self(std::num::NonZeroU8::new(7).unwrap());
    pub const ARRAY: Self = Self(std::num::NonZeroU8::new(8).unwrap());
    pub const RANGE: Self = Self(std::num::NonZeroU8::new(9).unwrap());
    pub const EXCEPTION: Self = Self(std::num::NonZeroU8::new(10).unwrap());
    pub const PROC: Self = Self(std::num::NonZeroU8::new(11).unwrap());
    pub const HASH: Self = Self(std::num::NonZeroU8::new(12).unwrap());
    pub const REGEXP: Self = Self(std::num::NonZeroU8::new(13).unwrap());
    pub const IO: Self = Self(std::num::NonZeroU8::new(14).unwrap());
    pub const METHOD: Self = Self(std::num::NonZeroU8::new(15).unwrap());
    pub const FIBER: Self = Self(std::num::NonZeroU8::new(16).unwrap());
    pub const ENUMERATOR: Self = Self(std::num::NonZeroU8::new(17).unwrap());
    pub const GENERATOR: Self = Self(std::num::NonZeroU8::new(18).unwrap());
    pub const COMPLEX: Self = Self(std::num::NonZeroU8::new(19).unwrap());
    pub const BINDING: Self = Self(std::num::NonZeroU8::new(20).unwrap());
    pub const UMETHOD: Self = Self(std::num::NonZeroU8::new(21).unwrap());
    pub const MATCHDATA: Self = Self(std::num::NonZeroU8::new(22).unwrap());
    pub const RATIONAL: Self = Self(std::num::NonZeroU8::new(23).unwrap());
    pub const STRUCT: Self = Self(std::num::NonZeroU8::new(24).unwrap());
    pub const ARITHMETIC_SEQUENCE: Self = Self(std::num::NonZeroU8::new(25).unwrap());
    pub const IO_BUFFER: Self = Self(std::num::NonZeroU8::new(26).unwrap());
    pub const THREAD: Self = Self(std::num::NonZeroU8::new(27).unwrap());
    pub const ARGF: Self = Self(std::num::NonZeroU8::new(28).unwrap());
    /// GC wrapper for a promoted heap frame's raw `Box<[u64]>` buffer.
    /// Internal only — never exposed to Ruby. Deliberately NOT in
    /// `is_promotable`: frames are mutated without a write barrier
    /// (dynvar stores), so like Proc/Binding/Fiber they stay young and
    /// are re-walked on every minor GC.
    pub const FRAME: Self = Self(std::num::NonZeroU8::new(29).unwrap());
}

#[repr(C)]
pub union ObjKind {
    invalid: (),
    class: ManuallyDrop<ModuleInner>,
    object: [Option<Value>; OBJECT_INLINE_IVAR],
    bignum: ManuallyDrop<BigInt>,
    float: f64,
    complex: ManuallyDrop<ComplexInner>,
    string: ManuallyDrop<RStringInner>,
    time: ManuallyDrop<TimeInner>,
    array: ManuallyDrop<ArrayInner>,
    range: ManuallyDrop<RangeInner>,
    exception: ManuallyDrop<Box<ExceptionInner>>,
    proc: ManuallyDrop<ProcInner>,
    /// The Hash payload. Its representation (inline pairs vs boxed map)
    /// is discriminated by the header's `ty_flags` byte, not by the
    /// payload itself — see `hash.rs`.
    hash: ManuallyDrop<HashBody>,
    regexp: ManuallyDrop<RegexpInner>,
    io: ManuallyDrop<IoInner>,
    method: ManuallyDrop<MethodInner>,
    umethod: ManuallyDrop<UMethodInner>,
    fiber: ManuallyDrop<FiberInner>,
    /// Boxed: ThreadInner (scheduler bookkeeping, saved error, joiner
    /// list) is far larger than the RValue cell.
    thread: ManuallyDrop<Box<ThreadInner>>,
    enumerator: ManuallyDrop<Box<EnumeratorInner>>,
    generator: ManuallyDrop<GeneratorInner>,
    binding: ManuallyDrop<BindingInner>,
    matchdata: ManuallyDrop<MatchDataInner>,
    rational: ManuallyDrop<Box<RationalInner>>,
    /// Slot-array storage for `Struct` subclass instances. Stored
    /// directly (not boxed) so up to `STRUCT_INLINE_SLOTS` members
    /// live inline in this union -- the JIT reuses the existing
    /// `RVALUE_OFFSET_INLINE` / `RVALUE_OFFSET_HEAP_PTR` constants to
    /// load slots without an extra Box deref. Same layout as
    /// `ArrayInner`'s `SmallVec<[Value; 5]>`.
    struct_inner: ManuallyDrop<StructInner>,
    arithmetic_sequence: ManuallyDrop<ArithmeticSequenceInner>,
    io_buffer: ManuallyDrop<Box<IoBufferInner>>,
    /// Boxed: keeps the walk state (queue, stream, encodings, in-place
    /// bookkeeping) off the fixed-size RValue cell.
    argf: ManuallyDrop<Box<ArgfInner>>,
    /// Raw parts of a promoted heap frame's buffer (see `FrameInner`).
    frame: FrameInner,
}

#[derive(Clone, Copy)]
pub(crate) struct FrameInner {
    /// Base pointer of the original `Box<[u64]>` allocation.
    base: *mut u64,
    /// Total length in `u64` words, INCLUDING the trailing back-pointer
    /// word.
    len: usize,
}

impl FrameInner {
    /// The LFP of the frame this wrapper owns.
    fn lfp(&self) -> Lfp {
        // top word = back-pointer; LFP_OUTER is the word below it.
        // SAFETY: the wrapper owns the buffer; it is live for the
        // wrapper's lifetime.
        unsafe { Lfp::from_heap_buffer(self.base, self.len) }
    }
}

#[repr(C)]
pub struct RValue {
    /// flags. 8 bytes
    header: Header,
    /// instance variable table. 8 bytes
    #[allow(clippy::box_collection)]
    var_table: Option<Box<MonoVec<Option<Value>>>>,
    /// object data. 48 bytes.
    pub kind: ObjKind,
}

impl PartialEq for RValue {
    fn eq(&self, other: &Self) -> bool {
        self.id() == other.id()
    }
}

impl alloc::GC<RValue> for RValue {
    fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
        if !self.header.is_live() {
            dead_rvalue_abort(self, alloc);
        }
        if alloc.gc_check_and_mark(self) {
            return;
        }
        // Let the allocator decide whether to walk into `mark_children`
        // from here or to defer it to the mark queue: past
        // `MARK_RECURSION_LIMIT` levels the traversal goes breadth-first
        // over that queue, so the depth of the object graph costs heap
        // entries instead of native stack frames. See
        // `Allocator::scan_children`.
        alloc.scan_children(self);
    }
}

impl alloc::GCBox for RValue {
    ///
    /// Free RValue slot.
    ///
    /// note that free() can be called for already free'd rvalue's, because slots in free list
    /// are free'd in the next sweep phase once more.
    ///
    fn free(&mut self) {
        if !self.header.is_live() {
            return;
        }
        // SAFETY: Type is verified via ty() before dropping. ManuallyDrop::drop is called only on
        // the union variant matching the object's actual type, ensuring proper cleanup.
        unsafe {
            match self.ty() {
                //ObjTy::INVALID => panic!("Invalid rvalue. (maybe GC problem) {:?}", &self),
                ObjTy::MODULE | ObjTy::CLASS => ManuallyDrop::drop(&mut self.kind.class),
                ObjTy::BIGNUM => ManuallyDrop::drop(&mut self.kind.bignum),
                ObjTy::STRING => ManuallyDrop::drop(&mut self.kind.string),
                ObjTy::TIME => ManuallyDrop::drop(&mut self.kind.time),
                ObjTy::ARRAY => ManuallyDrop::drop(&mut self.kind.array),
                ObjTy::EXCEPTION => ManuallyDrop::drop(&mut self.kind.exception),
                // The Hash payload's live union field is discriminated by
                // the header flags byte: only the boxed form owns heap
                // memory (inline pairs are plain Values).
                ObjTy::HASH => drop_hash_body(self.header.ty_flags(), &mut self.kind.hash),
                ObjTy::REGEXP => ManuallyDrop::drop(&mut self.kind.regexp),
                ObjTy::FIBER => ManuallyDrop::drop(&mut self.kind.fiber),
                ObjTy::THREAD => ManuallyDrop::drop(&mut self.kind.thread),
                ObjTy::ENUMERATOR => ManuallyDrop::drop(&mut self.kind.enumerator),
                ObjTy::GENERATOR => ManuallyDrop::drop(&mut self.kind.generator),
                ObjTy::BINDING => ManuallyDrop::drop(&mut self.kind.binding),
                ObjTy::IO => ManuallyDrop::drop(&mut self.kind.io),
                ObjTy::IO_BUFFER => ManuallyDrop::drop(&mut self.kind.io_buffer),
                ObjTy::ARGF => ManuallyDrop::drop(&mut self.kind.argf),
                // SAFETY: `base`/`len` are exactly the raw parts of the
                // original `Box<[u64]>` (recorded at promotion); this
                // wrapper is unreachable, and the frame's only owner is
                // the wrapper, so no live `Lfp` aliases the buffer.
                ObjTy::FRAME => {
                    let f = self.kind.frame;
                    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(
                        f.base, f.len,
                    )));
                }
                ObjTy::RATIONAL => ManuallyDrop::drop(&mut self.kind.rational),
                ObjTy::STRUCT => ManuallyDrop::drop(&mut self.kind.struct_inner),
                ObjTy::MATCHDATA => ManuallyDrop::drop(&mut self.kind.matchdata),
                ObjTy::ARITHMETIC_SEQUENCE => {
                    ManuallyDrop::drop(&mut self.kind.arithmetic_sequence)
                }
                _ => {}
            }
            self.set_next_none();
            self.var_table = None;
        }
    }

    fn next(&self) -> Option<std::ptr::NonNull<RValue>> {
        let next = unsafe { self.header.next };
        assert!(
            unsafe {
                std::mem::transmute::<Option<std::ptr::NonNull<value::rvalue::RValue>>, u64>(next)
            } & 0b1
                != 1
        );
        next
    }

    fn set_next_none(&mut self) {
        self.header.next = None;
    }

    fn set_next(&mut self, next: *mut RValue) {
        self.header.next = Some(std::ptr::NonNull::new(next).unwrap());
    }

    fn new_invalid() -> Self {
        RValue {
            header: Header { next: None },
            kind: ObjKind::invalid(),
            var_table: None,
        }
    }

    fn mark_children(&self, alloc: &mut alloc::Allocator<RValue>) {
        if let Some(v) = &self.var_table {
            v.iter().for_each(|v| {
                v.map(|v| {
                    v.mark(alloc);
                });
            });
        }
        // SAFETY: Type is checked via ty() match, ensuring we only access union variants that
        // match the actual object type. Each as_* method accesses the correct union field.
        unsafe {
            match self.ty() {
                ObjTy::CLASS | ObjTy::MODULE => self.as_module().mark(alloc),
                ObjTy::OBJECT => {
                    self.as_object().iter().for_each(|v| {
                        v.map(|v| {
                            v.mark(alloc);
                        });
                    });
                }
                ObjTy::BIGNUM => {}
                ObjTy::FLOAT => {}
                ObjTy::COMPLEX => self.as_complex().mark(alloc),
                ObjTy::RATIONAL => self.as_rational().mark(alloc),
                ObjTy::STRING => {
                    // A shared substring keeps its (hidden, frozen) root
                    // alive — the root owns the heap buffer it views.
                    if let Some(root) = self.as_rstring().shared_root() {
                        root.mark(alloc)
                    }
                }
                ObjTy::TIME => {}
                ObjTy::ARRAY => self.as_array().iter().for_each(|v| v.mark(alloc)),
                ObjTy::RANGE => self.as_range().mark(alloc),
                ObjTy::PROC => self.as_proc().mark(alloc),
                ObjTy::HASH => self.as_hashmap().mark(alloc),
                ObjTy::REGEXP => {}
                ObjTy::IO => self.as_io().mark(alloc),
                ObjTy::EXCEPTION => self.as_exception().mark(alloc),
                ObjTy::METHOD => self.as_method().mark(alloc),
                ObjTy::FIBER => self.as_fiber().mark(alloc),
                ObjTy::THREAD => self.as_thread().mark(alloc),
                ObjTy::ENUMERATOR => self.as_enumerator().mark(alloc),
                ObjTy::GENERATOR => self.as_generator().mark(alloc),
                ObjTy::BINDING => self.as_binding().mark(alloc),
                ObjTy::UMETHOD => {}
                ObjTy::MATCHDATA => self.as_matchdata().mark(alloc),
                ObjTy::STRUCT => self.as_struct_inner().mark(alloc),
                ObjTy::ARITHMETIC_SEQUENCE => self.as_arithmetic_sequence().mark(alloc),
                ObjTy::IO_BUFFER => self.as_io_buffer().mark(alloc),
                ObjTy::ARGF => self.as_argf().mark(alloc),
                // Walk the promoted frame's contents (registers, block,
                // svar, outer chain). Reaching the wrapper twice in one
                // cycle is cut off by the page bitmap before this runs.
                ObjTy::FRAME => self.kind.frame.lfp().mark_contents(alloc),
                _ => unreachable!("mark {:016x} {:?}", self.id(), self.ty()),
            }
        }
    }

    ///
    /// An object is safe to promote to the old generation only if it has
    /// **no outgoing `Value` references** at promotion time, so that a
    /// minor GC skipping it can never miss a live young object:
    ///
    /// - `var_table.is_none()` — no instance variables, and
    /// - a reference-free union kind (String bytes / Bignum / heap Float).
    ///
    /// Such an object can only gain a reference later via an instance
    /// variable, and the *first* ivar store always goes through the
    /// write barrier (`set_ivar_by_ivarid` / the JIT slow path that calls
    /// `set_ivar`), which then remembers it permanently. See
    /// `doc/gc.md`.
    ///
    fn is_promotable(&self) -> bool {
        // Pre-existing old→young edges (references the object held before
        // promotion) are handled by remember-on-promote (see
        // `young_child_exists`); new stores are handled by the write
        // barrier. An object kind is therefore promotable once *every*
        // Value-storing path on it is barrier protected.
        match self.ty() {
            // OBJECT and the leaves only store Values through ivars, and
            // every ivar store is now barriered — the interpreter via
            // `set_ivar`, and the JIT inline/heap stores via the emitted
            // barrier (`emit_write_barrier_rdi`). So they are promotable
            // in both modes.
            // Array/Struct element stores are barriered both in the
            // interpreter (Array wrapper / Value::set_struct_slot) and in
            // the JIT (array_index_assign / store_struct_slot_* emit the
            // barrier), so they are promotable in both modes.
            // Hash stores go through Hashmap::insert (the barriered wrapper)
            // in the interpreter, and Hash#[]= is not JIT-inlined (it calls
            // that builtin), so every Hash store is barriered too.
            ObjTy::OBJECT
            | ObjTy::STRING
            | ObjTy::BIGNUM
            | ObjTy::FLOAT
            | ObjTy::ARRAY
            | ObjTy::STRUCT
            | ObjTy::HASH => true,
            _ => false,
        }
    }

    fn promote_to_old(&mut self) {
        self.set_old();
    }

    fn age_and_check_promote(&mut self) -> bool {
        let age = self.header.age().saturating_add(1);
        self.header.set_age(age);
        age >= alloc::RGENGC_OLD_AGE
    }

    fn arm_barrier(&mut self) {
        self.header.arm_barrier();
    }

    fn enter_remembered(&mut self) {
        self.header.enter_remembered();
    }

    fn young_child_exists(&self, alloc: &alloc::Allocator<RValue>) -> bool {
        fn is_young(v: Value, alloc: &alloc::Allocator<RValue>) -> bool {
            v.try_rvalue().is_some_and(|rv| !alloc.is_old(rv))
        }
        if let Some(vt) = &self.var_table
            && vt.iter().filter_map(|o| *o).any(|v| is_young(v, alloc))
        {
            return true;
        }
        // SAFETY: only the promotable kinds below are ever passed here
        // (see `is_promotable`); each accesses its matching union field.
        unsafe {
            match self.ty() {
                // A shared (CoW) substring keeps its hidden frozen root
                // alive — `mark_children` marks it, so `young_child_exists`
                // MUST report it too. Otherwise a remembered old sharer with
                // a still-young root is dropped from the remembered set and
                // re-armed; a later minor GC then frees the unreachable root
                // while the sharer still points at it, and the next major's
                // `mark_children` walks that freed root ("Dead object").
                ObjTy::STRING => self
                    .as_rstring()
                    .shared_root()
                    .is_some_and(|root| is_young(root, alloc)),
                ObjTy::BIGNUM | ObjTy::FLOAT => false,
                ObjTy::OBJECT => self
                    .as_object()
                    .iter()
                    .filter_map(|o| *o)
                    .any(|v| is_young(v, alloc)),
                ObjTy::ARRAY => self.as_array().iter().any(|v| is_young(*v, alloc)),
                ObjTy::STRUCT => self.as_struct_inner().iter().any(|v| is_young(*v, alloc)),
                ObjTy::HASH => self.as_hashmap().young_child_exists(alloc),
                // Any other (currently non-promoted) kind: conservatively
                // assume it points at young, so it is always remembered.
                _ => true,
            }
        }
    }
}

#[derive(Clone, Copy)]
#[repr(C)]
union Header {
    meta: Metadata,
    next: Option<std::ptr::NonNull<RValue>>,
}

#[derive(Debug, Clone, Copy)]
#[repr(C)]
struct Metadata {
    flag: u16,
    ty: Option<ObjTy>,
    /// Per-`ObjTy` metadata byte. Zero for most types; a HASH object
    /// keeps its small-hash representation bits here (see
    /// `hash::HashFlags`), which frees the whole 48-byte payload for
    /// three inline key-value pairs. All JIT type checks read `ty` with
    /// 1-byte loads (x86-64 `cmpb`, aarch64 `ldrb`), so this byte may
    /// hold arbitrary values. Copied verbatim by `Header::newborn` and
    /// the JIT literal-copy path (`CellHeader::NewbornOf`) — dup/clone
    /// preserve it — and rewritten wholesale when a freed cell is
    /// reused.
    ty_flags: u8,
    class: Option<ClassId>,
}

impl Header {
    fn new(class: ClassId, ty: ObjTy) -> Self {
        match class {
            TRUE_CLASS | FALSE_CLASS | NIL_CLASS | SYMBOL_CLASS => {
                panic!("Invalid class for Header. class_id: {class:?}, ty: {ty:?}");
            }
            _ => {}
        }
        Header {
            meta: Metadata {
                flag: 1,
                ty: Some(ty),
                ty_flags: 0,
                class: Some(class),
            },
        }
    }

    /// The per-`ObjTy` metadata byte (see `Metadata::ty_flags`).
    fn ty_flags(&self) -> u8 {
        unsafe { self.meta.ty_flags }
    }

    fn set_ty_flags(&mut self, flags: u8) {
        self.meta.ty_flags = flags;
    }

    fn is_live(&self) -> bool {
        unsafe { self.meta.flag & 0b1 == 1 && self.meta.ty.is_some() }
    }

    /// A copy of this header for a newborn object (`#dup` / `#clone` /
    /// literal instantiation): the generational-GC state — age (bits
    /// 8..15), OLD, WB_ARMED — is reset so the copy starts
    /// young and unbarriered, instead of inheriting the source's GC
    /// state without being registered in the page-side `old_bits` /
    /// remembered-set bookkeeping (issue #977). LIVE, WB_UNPROTECTED,
    /// and the frozen/chilled family survive; `dup` clears the latter
    /// itself.
    fn newborn(&self) -> Header {
        let mut header = *self;
        unsafe { header.meta.flag &= NEWBORN_FLAG_MASK };
        header
    }

    fn is_frozen(&self) -> bool {
        unsafe { self.meta.flag & 0b10 != 0 }
    }

    fn set_frozen(&mut self) {
        unsafe { self.meta.flag |= 0b10 }
    }

    fn clear_frozen(&mut self) {
        unsafe { self.meta.flag &= !0b10 }
    }

    ///
    /// A "chilled" string behaves like a mutable String but emits a
    /// deprecation warning (gated by `Warning[:deprecated]`) the first time
    /// it is mutated. monoruby produces chilled strings from `Symbol#to_s`
    /// and from source string literals in files without a
    /// `frozen_string_literal` pragma (bit 8 marks the latter kind, whose
    /// warning wording differs). The flags are cleared on first mutation so
    /// the warning fires at most once per string. Only Strings are chilled.
    ///
    fn is_chilled(&self) -> bool {
        unsafe { self.meta.flag & 0b100 != 0 }
    }

    fn set_chilled(&mut self) {
        unsafe { self.meta.flag |= 0b100 }
    }

    fn clear_chilled(&mut self) {
        unsafe { self.meta.flag &= !(0b100 | CHILLED_LITERAL_BIT) }
    }

    fn is_chilled_literal(&self) -> bool {
        unsafe { self.meta.flag & CHILLED_LITERAL_BIT != 0 }
    }

    fn set_chilled_literal(&mut self) {
        unsafe { self.meta.flag |= 0b100 | CHILLED_LITERAL_BIT }
    }

    // --- Generational GC flags (flag bits 3, 4, 6) ---
    //
    // bit3 `0b000_1000` = OLD            (promoted to old generation)
    // bit4 `0b001_0000` = WB_UNPROTECTED (shady; never promoted)
    // bit5 `0b010_0000` = (free — was REMEMBERED; "in the remembered
    //                     set" is now derived as `OLD && !WB_ARMED`,
    //                     and the set itself is `Allocator::remembered`)
    // bit6 `0b100_0000` = WB_ARMED       (see `is_wb_armed`)
    //
    // A freshly allocated object has `flag == 1`, so all these bits
    // start clear (young, barrier-untracked). See `doc/gc.md`.

    #[allow(dead_code)]
    fn is_old(&self) -> bool {
        unsafe { self.meta.flag & 0b0_1000 != 0 }
    }

    #[allow(dead_code)]
    fn set_old(&mut self) {
        unsafe { self.meta.flag |= 0b0_1000 }
    }

    #[allow(dead_code)]
    fn clear_old(&mut self) {
        unsafe { self.meta.flag &= !0b0_1000 }
    }

    #[allow(dead_code)]
    fn is_wb_unprotected(&self) -> bool {
        unsafe { self.meta.flag & 0b1_0000 != 0 }
    }

    #[allow(dead_code)]
    fn set_wb_unprotected(&mut self) {
        unsafe { self.meta.flag |= 0b1_0000 }
    }

    ///
    /// Generational GC write-barrier "armed" flag (bit 6, WB_ARMED): set
    /// iff the object is old and *not* in the remembered set, i.e. a
    /// young store to it must take the barrier slow path. Testing this
    /// single bit is what makes the JIT/Rust barrier fast path one
    /// instruction — young objects and already-remembered old objects
    /// both have it clear. There is no separate REMEMBERED bit:
    /// membership in the remembered set is `OLD && !WB_ARMED` (the set
    /// itself lives in `Allocator::remembered`), so `arm_barrier` /
    /// `enter_remembered` are single-bit flips of this flag. See
    /// `doc/gc.md`.
    ///
    fn is_wb_armed(&self) -> bool {
        unsafe { self.meta.flag & 0b100_0000 != 0 }
    }

    /// Old, not remembered: arm the barrier (set WB_ARMED). Also used to
    /// re-arm when the object is dropped from the remembered set.
    fn arm_barrier(&mut self) {
        unsafe { self.meta.flag |= 0b100_0000 }
    }

    /// Recorded in the remembered set: disarm the barrier (clear
    /// WB_ARMED; an old object with WB_ARMED clear *is* "remembered").
    /// The clear is not always a no-op: an old object demoted by a major
    /// GC keeps a stale WB_ARMED until re-promotion passes through here.
    fn enter_remembered(&mut self) {
        unsafe { self.meta.flag &= !0b100_0000 }
    }

    /// Generational GC age (number of collections survived), stored in
    /// the high byte of `flag` (the byte next to `ty` belongs to the
    /// per-type metadata, `Metadata::ty_flags`). The low byte holds the
    /// live/frozen/chilled/OLD/WB_ARMED flags and is read by the write
    /// barrier; age occupies bits 8..15, untouched by those byte-wide
    /// flag tests.
    fn age(&self) -> u8 {
        unsafe { (self.meta.flag >> 8) as u8 }
    }

    fn set_age(&mut self, age: u8) {
        unsafe { self.meta.flag = (self.meta.flag & 0x00ff) | ((age as u16) << 8) }
    }

    fn class(&self) -> ClassId {
        assert!(self.is_live(), "dead RVALUE. {:?}", unsafe { self.meta });
        unsafe { self.meta.class.unwrap() }
    }

    fn ty(&self) -> ObjTy {
        unsafe { self.meta.ty.unwrap() }
    }

    fn change_class(&mut self, class: ClassId) {
        self.meta.class = Some(class);
    }
}

pub const OBJECT_INLINE_IVAR: usize = 6;

const CHILLED_LITERAL_BIT: u16 = 0b1000_0000;

pub const NEWBORN_FLAG_MASK: u16 = 0b0001_0111 | CHILLED_LITERAL_BIT;

pub const RVALUE_OFFSET_FLAG: usize = std::mem::offset_of!(RValue, header.meta.flag);

pub const RVALUE_OFFSET_TY: usize = std::mem::offset_of!(RValue, header.meta.ty);

const _: () =
    assert!(std::mem::offset_of!(RValue, header.meta.ty_flags) == RVALUE_OFFSET_TY + 1);

pub const RVALUE_OFFSET_CLASS: usize = std::mem::offset_of!(RValue, header.meta.class);

pub const RVALUE_OFFSET_VAR: usize = std::mem::offset_of!(RValue, var_table);

pub const RVALUE_OFFSET_KIND: usize = std::mem::offset_of!(RValue, kind);

const _: () = assert!(RVALUE_OFFSET_KIND + OBJECT_INLINE_IVAR * 8 <= std::mem::size_of::<RValue>());

impl RValue {
    pub fn swap_kind(&mut self, other: &mut Self) {
        std::mem::swap(&mut self.kind, &mut other.kind);
        self.write_barrier_bulk();
        other.write_barrier_bulk();
    }

    pub(crate) fn id(&self) -> u64 {
        self as *const RValue as u64
    }

    pub(crate) fn ty(&self) -> ObjTy {
        self.header.ty()
    }

    pub(crate) fn ty_flags(&self) -> u8 {
        self.header.ty_flags()
    }

    pub(crate) fn set_ty_flags(&mut self, flags: u8) {
        self.header.set_ty_flags(flags)
    }

    pub(crate) fn ty_flags_ptr(&self) -> std::ptr::NonNull<u8> {
        // SAFETY: the byte after `ty` is `ty_flags` (checked below).
        unsafe {
            std::ptr::NonNull::new_unchecked(
                (self as *const RValue as *mut u8).add(RVALUE_OFFSET_TY + 1),
            )
        }
    }

    pub(crate) fn is_frozen(&self) -> bool {
        self.header.is_frozen()
    }

    pub(crate) fn set_frozen(&mut self) {
        self.header.set_frozen()
    }

    #[allow(dead_code)]
    pub(crate) fn is_old(&self) -> bool {
        self.header.is_old()
    }

    #[allow(dead_code)]
    pub(crate) fn set_old(&mut self) {
        self.header.set_old()
    }

    pub(crate) fn is_wb_armed(&self) -> bool {
        self.header.is_wb_armed()
    }

    fn enter_remembered_set(&mut self) {
        self.header.enter_remembered();
        crate::alloc::ALLOC
            .with(|alloc| alloc.borrow_mut().remember(std::ptr::NonNull::from(&*self)));
    }

    #[inline]
    pub(crate) fn write_barrier(&mut self, child: Value) {
        if self.is_wb_armed() && !child.is_packed_value() {
            self.enter_remembered_set();
        }
    }

    #[inline]
    pub(crate) fn write_barrier_bulk(&mut self) {
        if self.is_wb_armed() {
            self.enter_remembered_set();
        }
    }

    pub(crate) unsafe fn try_ty(&self) -> Option<ObjTy> {
        unsafe { self.header.meta.ty }
    }

    pub(crate) fn get_ivar_by_ivarid(&self, id: IvarId) -> Option<Value> {
        let mut i = id.into_usize();
        if self.ty() == ObjTy::OBJECT {
            if i < OBJECT_INLINE_IVAR {
                return self.as_object()[i];
            } else {
                i -= OBJECT_INLINE_IVAR;
            }
        }
        if let Some(v) = &self.var_table {
            if v.len() > i {
                return v[i];
            }
        }
        None
    }

    pub(crate) fn remove_ivar_by_ivarid(&mut self, id: IvarId) -> Option<Value> {
        let mut i = id.into_usize();
        if self.ty() == ObjTy::OBJECT {
            if i < OBJECT_INLINE_IVAR {
                let val = self.as_object()[i];
                self.as_object_mut()[i] = None;
                return val;
            } else {
                i -= OBJECT_INLINE_IVAR;
            }
        }
        if let Some(v) = &mut self.var_table {
            if v.len() > i {
                let val = v[i];
                v[i] = None;
                return val;
            }
        }
        None
    }

    pub(crate) fn set_ivar_by_ivarid(&mut self, id: IvarId, val: Value) {
        let mut i = id.into_usize();
        if self.ty() == ObjTy::OBJECT {
            if i < OBJECT_INLINE_IVAR {
                self.as_object_mut()[i] = Some(val);
                self.write_barrier(val);
                return;
            } else {
                i -= OBJECT_INLINE_IVAR;
            }
        }
        match &mut self.var_table {
            Some(v) => {
                if v.len() <= i {
                    v.resize(i + 1);
                }
                v[i] = Some(val);
            }
            None => {
                let mut v = MonoVec::with_capacity(i + 1);
                v.resize(i + 1);
                v[i] = Some(val);
                self.var_table = Some(Box::new(v));
            }
        }
        self.write_barrier(val);
    }

    pub(crate) fn extend_ivar(&mut self, heap_len: usize) {
        match &mut self.var_table {
            Some(v) => {
                v.resize(heap_len);
            }
            None => {
                let mut v = MonoVec::with_capacity(heap_len);
                v.resize(heap_len);
                self.var_table = Some(Box::new(v));
            }
        }
    }

    pub(super) fn change_class(&mut self, new_class_id: ClassId) {
        self.header.change_class(new_class_id);
    }

    pub(super) fn dup(&self) -> Self {
        let mut header = self.header.newborn();
        // dup does not copy the frozen or chilled flag (clone does).
        unsafe { header.meta.flag &= !(0b110 | CHILLED_LITERAL_BIT) };
        // A hash copy keeps its representation bits but not the source's
        // ruby2_keywords flag or live iteration count.
        if unsafe { self.try_ty() } == Some(ObjTy::HASH) {
            header.set_ty_flags(hash::sanitize_dup_flags(header.ty_flags()));
        }
        RValue {
            header,
            var_table: self.var_table.clone(),
            kind: unsafe {
                if let Some(ty) = self.try_ty() {
                    match ty {
                        ObjTy::CLASS | ObjTy::MODULE => ObjKind {
                            class: self.kind.class.clone(),
                        },
                        ObjTy::OBJECT => ObjKind {
                            object: self.kind.object.clone(),
                        },
                        ObjTy::BIGNUM => ObjKind {
                            bignum: self.kind.bignum.clone(),
                        },
                        ObjTy::FLOAT => ObjKind {
                            float: self.kind.float,
                        },
                        ObjTy::COMPLEX => ObjKind {
                            complex: ManuallyDrop::new(self.kind.complex.dup()),
                        },
                        ObjTy::RATIONAL => ObjKind::rational((**self.kind.rational).clone()),
                        ObjTy::STRING => ObjKind {
                            string: self.kind.string.clone(),
                        },
                        ObjTy::TIME => ObjKind {
                            time: self.kind.time.clone(),
                        },
                        ObjTy::IO_BUFFER => ObjKind {
                            io_buffer: self.kind.io_buffer.clone(),
                        },
                        ObjTy::ARGF => ObjKind {
                            argf: self.kind.argf.clone(),
                        },
                        ObjTy::ARRAY => ObjKind {
                            array: self.kind.array.clone(),
                        },
                        ObjTy::RANGE => ObjKind {
                            range: self.kind.range.clone(),
                        },
                        ObjTy::PROC => ObjKind {
                            proc: self.kind.proc.clone(),
                        },
                        ObjTy::HASH => ObjKind {
                            hash: ManuallyDrop::new(self.as_hashmap().clone_body()),
                        },
                        ObjTy::REGEXP => ObjKind {
                            regexp: self.kind.regexp.clone(),
                        },
                        ObjTy::IO => ObjKind {
                            io: self.kind.io.clone(),
                        },
                        ObjTy::EXCEPTION => ObjKind {
                            exception: self.kind.exception.clone(),
                        },
                        ObjTy::METHOD => ObjKind {
                            method: self.kind.method.clone(),
                        },
                        ObjTy::UMETHOD => ObjKind {
                            umethod: self.kind.umethod.clone(),
                        },
                        ObjTy::MATCHDATA => ObjKind {
                            matchdata: self.kind.matchdata.clone(),
                        },
                        ObjTy::STRUCT => ObjKind {
                            struct_inner: ManuallyDrop::new((*self.kind.struct_inner).clone()),
                        },
                        ObjTy::ARITHMETIC_SEQUENCE => ObjKind {
                            arithmetic_sequence: ManuallyDrop::new(
                                (*self.kind.arithmetic_sequence).clone(),
                            ),
                        },
                        ObjTy::BINDING => ObjKind {
                            binding: ManuallyDrop::new((*self.kind.binding).clone()),
                        },
                        ty => unreachable!("{ty:?}"),
                    }
                } else {
                    unreachable!()
                }
            },
        }
    }

    pub(super) fn clone_value(&self) -> Self {
        // clone keeps frozen / chilled, but not the source's GC state.
        let mut header = self.header.newborn();
        // A hash copy keeps its representation bits but not the source's
        // ruby2_keywords flag or live iteration count.
        if unsafe { self.try_ty() } == Some(ObjTy::HASH) {
            header.set_ty_flags(hash::sanitize_dup_flags(header.ty_flags()));
        }
        RValue {
            header,
            var_table: self.var_table.clone(),
            kind: unsafe {
                if let Some(ty) = self.try_ty() {
                    match ty {
                        ObjTy::CLASS | ObjTy::MODULE => ObjKind {
                            class: self.kind.class.clone(),
                        },
                        ObjTy::OBJECT => ObjKind {
                            object: self.kind.object.clone(),
                        },
                        ObjTy::BIGNUM => ObjKind {
                            bignum: self.kind.bignum.clone(),
                        },
                        ObjTy::FLOAT => ObjKind {
                            float: self.kind.float,
                        },
                        ObjTy::COMPLEX => ObjKind {
                            complex: ManuallyDrop::new(self.kind.complex.dup()),
                        },
                        ObjTy::RATIONAL => ObjKind::rational((**self.kind.rational).clone()),
                        ObjTy::STRING => ObjKind {
                            string: self.kind.string.clone(),
                        },
                        ObjTy::TIME => ObjKind {
                            time: self.kind.time.clone(),
                        },
                        ObjTy::IO_BUFFER => ObjKind {
                            io_buffer: self.kind.io_buffer.clone(),
                        },
                        ObjTy::ARGF => ObjKind {
                            argf: self.kind.argf.clone(),
                        },
                        ObjTy::ARRAY => ObjKind {
                            array: self.kind.array.clone(),
                        },
                        ObjTy::RANGE => ObjKind {
                            range: self.kind.range.clone(),
                        },
                        ObjTy::PROC => ObjKind {
                            proc: self.kind.proc.clone(),
                        },
                        ObjTy::HASH => ObjKind {
                            hash: ManuallyDrop::new(self.as_hashmap().clone_body()),
                        },
                        ObjTy::REGEXP => ObjKind {
                            regexp: self.kind.regexp.clone(),
                        },
                        ObjTy::IO => ObjKind {
                            io: self.kind.io.clone(),
                        },
                        ObjTy::EXCEPTION => ObjKind {
                            exception: self.kind.exception.clone(),
                        },
                        ObjTy::METHOD => ObjKind {
                            method: self.kind.method.clone(),
                        },
                        ObjTy::UMETHOD => ObjKind {
                            umethod: self.kind.umethod.clone(),
                        },
                        ObjTy::MATCHDATA => ObjKind {
                            matchdata: self.kind.matchdata.clone(),
                        },
                        ObjTy::STRUCT => ObjKind {
                            struct_inner: ManuallyDrop::new((*self.kind.struct_inner).clone()),
                        },
                        ObjTy::ARITHMETIC_SEQUENCE => ObjKind {
                            arithmetic_sequence: ManuallyDrop::new(
                                (*self.kind.arithmetic_sequence).clone(),
                            ),
                        },
                        ObjTy::BINDING => ObjKind {
                            binding: ManuallyDrop::new((*self.kind.binding).clone()),
                        },
                        ty => unreachable!("{ty:?}"),
                    }
                } else {
                    unreachable!()
                }
            },
        }
    }

    pub(crate) fn class(&self) -> ClassId {
        if self.header.is_live() {
            self.header.class()
        } else {
            unreachable!("Dead object {:?}", self)
        }
    }

    pub(super) fn new_object(class_id: ClassId) -> Self {
        RValue {
            header: Header::new(class_id, ObjTy::OBJECT),
            kind: ObjKind::object(),
            var_table: None,
        }
    }

    fn new_hash_with_class(class_id: ClassId, inner: HashmapInner) -> Self {
        let (flags, body) = inner.into_parts();
        let mut header = Header::new(class_id, ObjTy::HASH);
        header.set_ty_flags(flags);
        RValue {
            header,
            kind: ObjKind::hash_body(body),
            var_table: None,
        }
    }

    pub(super) fn new_hash(map: RubyMap<Value, Value>) -> Self {
        Self::new_hash_with_class(HASH_CLASS, HashmapInner::new(map))
    }

    pub(super) fn new_hash_from_inner(inner: HashmapInner) -> Self {
        Self::new_hash_with_class(HASH_CLASS, inner)
    }

    fn as_object(&self) -> &[Option<value::Value>; OBJECT_INLINE_IVAR] {
        assert!(self.ty() == ObjTy::OBJECT);
        // SAFETY: Union field access is safe because we've verified ty() == ObjTy::OBJECT,
        // ensuring the object variant is the active union member.
        unsafe { &self.kind.object }
    }

    fn as_object_mut(&mut self) -> &mut [Option<value::Value>; OBJECT_INLINE_IVAR] {
        assert!(self.ty() == ObjTy::OBJECT);
        // SAFETY: Union field access is safe because we've verified ty() == ObjTy::OBJECT,
        // ensuring the object variant is the active union member.
        unsafe { &mut self.kind.object }
    }

    pub(super) unsafe fn as_module(&self) -> &ModuleInner {
        // SAFETY: Caller must ensure this RValue contains a MODULE or CLASS type.
        // Accessing the class union field is valid only when the type matches.
        unsafe { &self.kind.class }
    }

    pub(super) unsafe fn as_complex(&self) -> &ComplexInner {
        // SAFETY: Caller must ensure this RValue contains a COMPLEX type.
        unsafe { &self.kind.complex }
    }

    pub(super) unsafe fn as_rational(&self) -> &RationalInner {
        // SAFETY: Caller must ensure this RValue contains a RATIONAL type.
        unsafe { &self.kind.rational }
    }

    pub(super) unsafe fn as_rstring(&self) -> &RStringInner {
        // SAFETY: Caller must ensure this RValue contains a STRING type.
        // Accessing the string union field is valid only when the type is STRING.
        unsafe { &self.kind.string }
    }

    pub(crate) unsafe fn as_array(&self) -> &ArrayInner {
        unsafe { &self.kind.array }
    }

    pub(super) unsafe fn as_range(&self) -> &RangeInner {
        unsafe { &self.kind.range }
    }

    pub(super) unsafe fn as_exception(&self) -> &ExceptionInner {
        unsafe { &self.kind.exception }
    }

    pub(super) unsafe fn as_matchdata(&self) -> &MatchDataInner {
        unsafe { &self.kind.matchdata }
    }

    pub(crate) unsafe fn as_hashmap(&self) -> HashRef<'_> {
        unsafe { HashRef::from_rvalue(self) }
    }

    pub(crate) unsafe fn as_struct_inner(&self) -> &StructInner {
        unsafe { &self.kind.struct_inner }
    }

    pub(super) unsafe fn as_hashmap_mut(&mut self) -> HashRefMut<'_> {
        unsafe { HashRefMut::from_rvalue(self) }
    }

    pub(super) unsafe fn as_io(&self) -> &IoInner {
        unsafe { &self.kind.io }
    }

    pub(super) unsafe fn as_proc(&self) -> &ProcInner {
        unsafe { &self.kind.proc }
    }

    pub(crate) fn as_method(&self) -> &MethodInner {
        assert_eq!(self.ty(), ObjTy::METHOD);
        unsafe { &self.kind.method }
    }

    pub(super) unsafe fn as_thread(&self) -> &ThreadInner {
        assert_eq!(self.ty(), ObjTy::THREAD);
        unsafe { &self.kind.thread }
    }

    pub(super) unsafe fn as_fiber(&self) -> &FiberInner {
        assert_eq!(self.ty(), ObjTy::FIBER);
        unsafe { &self.kind.fiber }
    }

    pub(super) unsafe fn as_enumerator(&self) -> &EnumeratorInner {
        unsafe { &self.kind.enumerator }
    }

    pub(super) unsafe fn as_generator(&self) -> &GeneratorInner {
        unsafe { &self.kind.generator }
    }

    pub(super) fn as_io_buffer(&self) -> &IoBufferInner {
        assert_eq!(self.ty(), ObjTy::IO_BUFFER);
        // SAFETY: type checked above.
        unsafe { &self.kind.io_buffer }
    }

    pub(super) fn as_argf(&self) -> &ArgfInner {
        assert_eq!(self.ty(), ObjTy::ARGF);
        // SAFETY: type checked above.
        unsafe { &self.kind.argf }
    }

    pub(super) unsafe fn as_arithmetic_sequence(&self) -> &ArithmeticSequenceInner {
        unsafe { &self.kind.arithmetic_sequence }
    }

    pub(super) unsafe fn as_binding(&self) -> &BindingInner {
        unsafe { &self.kind.binding }
    }

    pub(crate) fn pack(self) -> Value {
        let ptr = alloc::ALLOC.with(|alloc| alloc.borrow_mut().alloc(self));
        Value::from_ptr(ptr)
    }

}

impl ObjKind {
    fn invalid() -> Self {
        Self { invalid: () }
    }

    fn object() -> Self {
        Self {
            object: [None; OBJECT_INLINE_IVAR],
        }
    }

    fn hash_body(body: HashBody) -> Self {
        Self {
            hash: ManuallyDrop::new(body),
        }
    }

    fn rational(inner: RationalInner) -> Self {
        Self {
            rational: ManuallyDrop::new(Box::new(inner)),
        }
    }

}

