"""Units per property."""
from run import Unit
import sys
LEVEL = {}
REG = {}
def prop(id, level, explain, assumptions):
    def deco(f):
        LEVEL[id] = level
        REG[id] = (f, explain, assumptions)
        return f
    return deco

def units(id, tier):
    f, explain, assumptions = REG[id]
    return f(tier), list(assumptions), explain

HM = [("handle.c", "dill_hmake", 0, "hmake", ["i", "hndls"])]
@prop("C01", "proof", "Hoare contracts of the four handle operations over an arbitrary well-formed table (symbolic size up to 2^24 slots, arbitrary free queue, arbitrary witness slot for the frame); the growth loop by loop contract. The closure/creation nesting history is a bounded stand-in.",
      ["dill_canblock/dill_no_blocking behave as proved in C13", "realloc returns NULL or a block with the old content"])
def c01(tier):
    us = []
    for f, e, fns in (("hmake", "hmake_contract", ["dill_hmake"]), ("hclose", "hclose_contract", ["dill_hclose"]),
                 ("hown", "hown_contract", ["dill_hown", "dill_hmake"]), ("hquery", "hquery_contract", ["dill_hquery"])):
        fb = Unit(f + "_b", "h_handle.c", e, fns, unwind=18, bound="tables of 4 slots before growth", defs=["-DMAXN=4"])
        us.append(Unit(f, "h_handle.c", e, fns, unwind=6, defs=["-DVF_UNB=1"], cuts=HM if f in ("hmake", "hown") else [], fallback=fb))
    us.append(Unit("handle_history", "h_handle.c", "handle_history", ["dill_hmake", "dill_hclose", "dill_hown", "dill_hquery"],
                   unwind=18, bound="tables of 2 slots before growth, one level of nesting", defs=["-DMAXN=2"]))
    return us

IC = [("iol.c", "dill_iolcheck", 0, "chk0", ["it", "nbf", "nbt"]), ("iol.c", "dill_iolcheck", 1, "chk1", ["it"]),
      ("iol.c", "dill_iolcheck", 2, "chk2", ["it2", "nbf"]),
      ("iol.c", "dill_ioltoiov", 0, "iov", ["iov", "first"]), ("iol.c", "dill_ioltrim", 0, "trim", ["n", "first"]),
      ("iol.c", "dill_iolto", 0, "to", ["p", "srclen", "first"]), ("iol.c", "dill_iolfrom", 0, "from", ["p", "dstlen", "first"])]
@prop("C03", "proof", "Every iolist function under contract for lists of any length (symbolic up to 2^24 nodes) and any rho-shaped topology, by loop contracts with an arbitrary witness node; the generic entry points loop-free.",
      ["nodes of a list are distinct objects reached in a fixed order (representation independence: the code only compares node addresses for equality)",
       "element lengths are mathematical 64-bit values; iolto/iolfrom sources up to 1 MB in the unbounded proof"])
def c03(tier):
    us = []
    for f in ("iolcheck", "ioltoiov", "ioltrim", "iolto", "iolfrom"):
        n = 4 if tier == "thorough" else 3
        m = 2 if f == "iolto" else n
        fb = Unit(f + "_b", "h_iol.c", f + "_b", ["dill_" + f], unwind=14 if n == 3 else 18, defs=["-DN=%d" % m, "-DBL=%d" % m], bound="graphs of at most %d nodes, buffers of at most 3 bytes" % n)
        us.append(Unit(f, "h_iol.c", f + "_u", ["dill_" + f], unwind=2, defs=["-DVF_UNB=1"] + (["-DVF_MEMCPY=1"] if f in ("iolto", "iolfrom") else []), cuts=IC, fallback=fb))
        if f != "iolto": us.append(Unit(f + "_bb", "h_iol.c", f + "_b", ["dill_" + f], unwind=14 if n == 3 else 18, defs=["-DN=%d" % n], bound="graphs of at most %d nodes, buffers of at most 3 bytes" % n))
    us.append(Unit("sock", "h_sock.c", "sock_contract", ["dill_bsend", "dill_brecv", "dill_bsendl", "dill_brecvl", "dill_msend", "dill_mrecv", "dill_msendl", "dill_mrecvl"], unwind=2))
    return us

UC = [("utils.c", "dill_base64_encode", 0, "be", ["ii", "io", "rem", "v", "ch"]), ("utils.c", "dill_base64_decode", 0, "bd", ["ii", "io", "rem", "v", "ch"]),
      ("utils.c", "dill_sha1_add", 0, "sha", ["i", "a", "b", "c", "d", "e", "t"])]
@prop("C02", "proof", "Integer codecs for all values and positions (loop-free); Base64 by loop contracts with an arbitrary witness output position, inputs up to 2^28 bytes; SHA-1 round loop by a relational invariant against FIPS 180-4, padding over the contract of dill_sha1_add.",
      ["isspace as in the C locale", "little-endian machine (the big-endian branch of SHA-1 is not covered)"])
def c02(tier):
    F = "h_utils.c"; B = "messages of at most %s bytes"
    shafb = Unit("sha_b", F, "sha_b", ["dill_sha1_init", "dill_sha1_hashbyte", "dill_sha1_result"], fuzzonly=True, fuzz=10)
    sha = ["dill_sha1_init", "dill_sha1_hashbyte", "dill_sha1_result"]
    return [
        Unit("ints", F, "ints", ["dill_gets", "dill_puts", "dill_getl", "dill_putl", "dill_getll", "dill_putll"], unwind=26),
        Unit("b64enc", F, "b64enc", ["dill_base64_encode"], unwind=5, defs=["-DVF_UNB=1"], cuts=UC,
             fallback=Unit("b64enc_b", F, "b64enc_b", ["dill_base64_encode"], unwind=13, bound=B % 6)),
        Unit("b64dec", F, "b64dec", ["dill_base64_decode"], unwind=5, defs=["-DVF_UNB=1"], cuts=UC,
             fallback=Unit("b64dec_b", F, "b64dec_b", ["dill_base64_decode"], unwind=9, bound=B % 6)),
        Unit("sha_add", F, "sha_add", ["dill_sha1_add"], unwind=17, defs=["-DVF_UNB=1"], cuts=UC, fallback=shafb),
        Unit("sha_frame", F, "sha_frame", sha, unwind=98, replace=["dill_sha1_add:vf_sha_add"], fallback=shafb)]

SD = [("fd.c", "dill_fd_send", 0, "s0", ["sz", "rc", "hdr"]), ("fd.c", "dill_fd_send", 1, "s1", ["hdr"]), ("fd.c", "dill_fd_send", 2, "s2", ["sz", "hdr"])]
RV = [("fd.c", "dill_fd_recv_", 0, "r0", ["sz", "rc", "hdr"]), ("fd.c", "dill_fd_recv_", 1, "s2", ["sz", "hdr"])]
@prop("C04", "proof", "dill_fd_send and dill_fd_recv_ for any number of elements of any length and any sequence of kernel answers, by loop contracts over the system-call boundary; dill_fd_skip by loop contract over dill_fd_recv_; dill_fd_recv with its read-ahead loop by loop contract over the contracts of both (lists of at most 2 elements, 3 in the thorough tier, of any length; labelled bounded).",
      ["sendmsg/recvmsg/recv transfer between 1 and the offered number of bytes, or report end of stream (receives) or an error", "dill_fdin/dill_fdout return 0 or fail with their errno (C16)", "iolist functions as proved in C03", "total transfer below 2^60 bytes"])
def c04(tier):
    ne = 2 if tier == "quick" else 3
    F = "h_fd.c"
    rb = lambda ne, st: Unit("recv_b", F, "fd_recv", ["dill_fd_recv"], unwind=12, defs=["-DVF_RECV=1", "-DNE=%d" % ne, "-DSTEPS=%d" % st], bound="lists of %d elements of at most 2100 bytes, %d kernel answers" % (ne, st), fuzzonly=True, fuzz=10)
    sb = Unit("send_b", F, "fd_send_b", ["dill_fd_send"], unwind=7, defs=["-DVF_SENDB=1"], bound="3 elements of 3 bytes, 5 kernel answers", fuzzonly=True, fuzz=10)
    R = ["dill_fd_recv_:vf_recv_c"]
    return [
        Unit("send", F, "fd_send", ["dill_fd_send"], unwind=2, defs=["-DVF_UNB=1"], cuts=SD, fallback=sb),
        Unit("recv_", F, "fd_recv_", ["dill_fd_recv_"], unwind=2, defs=["-DVF_UNB=1"], cuts=RV, fallback=rb(3, 6)),
        Unit("skip", F, "fd_skip", ["dill_fd_skip"], unwind=2, defs=["-DVF_SKIP=1"], cuts=[("fd.c", "dill_fd_skip", 0, "sk", ["len"])], replace=R, fallback=rb(3, 6)),
    ] + [Unit("recv_" + ["direct", "large", "small"][c], F, "fd_recv", ["dill_fd_recv", "dill_fd_copy"], unwind=ne + 2,
              defs=["-DVF_RECV=1", "-DVF_CUTRX=1", "-DVF_CASE=%d" % c, "-DNE=%d" % ne], timeout=300 if tier == "quick" else 4000,
              bound="lists of at most %d elements (any lengths, any number of kernel answers, any state of the receive buffer)" % ne,
              cuts=[("fd.c", "dill_fd_recv", 0, "c0", ["first", "sz"]), ("fd.c", "dill_fd_recv", 4, "c4", ["sz", "curr"]), ("fd.c", "dill_fd_recv", 3, "rx", ["sz", "curr", "rc"])],
              replace=R + ["dill_fd_skip:vf_skip_c"], fallback=rb(3, 6)) for c in (2, 1, 0)] + [
        Unit(f, F, f, [g], unwind=6, defs=["-DVF_MISC=1"], bound=b) for f, g, b in (("fd_connect", "dill_fd_connect", None), ("fd_accept", "dill_fd_accept", "4 answers of accept"),
            ("fd_close", "dill_fd_close", None), ("fd_check", "dill_fd_check", None))]

@prop("C17", "proof", "Allocation, release and teardown of stacks and receive buffers from any state of the cache (only its first two elements can be touched: the rest is an arbitrary frame), 4 kB pages, failure of every system call; loop-free except the teardown loops.",
      ["posix_memalign/malloc/mprotect/sysconf as documented", "page size 4 kB", "guarded configuration (the default); the unguarded variant is a compile-time branch"])
def c17(tier):
    F = "h_stack.c"
    h = Unit("stack_history", F, "history", ["dill_allocstack", "dill_freestack"], defs=["-DVF_HIST=1"], fuzzonly=True, fuzz=15)
    U = lambda n, fns, b=None, fb=h: Unit(n, F, n, fns, unwind=5, bound=b, fallback=fb, defs=["-DVF_PG=4096"])
    return [U("allocstack", ["dill_allocstack"]), U("freestack", ["dill_freestack"]), U("stackterm", ["dill_ctx_stack_term", "dill_ctx_stack_init"], "2 cached stacks", None),
            U("fdbuf", ["dill_fd_allocbuf", "dill_fd_freebuf", "dill_fd_initrxbuf", "dill_fd_termrxbuf"], None, None), U("fdterm", ["dill_ctx_fd_init", "dill_ctx_fd_term"], "1 cached buffer", None)]

SCHED = "scheduler contract (proved in C13): dill_wait returns once, by one registered cause, after every registered clause's cancel function was called; dill_trigger calls the cancel functions of the target coroutine"
TM = [("chan.c", "dill_halfchan_term", 0, "d0", []), ("chan.c", "dill_halfchan_term", 1, "d1", []), ("chan.c", "dill_chdone", 0, "d0", []), ("chan.c", "dill_chdone", 1, "d1", [])]
@prop("C11", "proof", "chsend, chrecv over peer queues of any length (first two and last element real, the rest an untouchable frame), all values, lengths and deadlines; chdone and close by loop contracts (one iteration resumes the first peer); creation with failure of every step.",
      [SCHED, "memcpy copies the given bytes", "dill_hquery, dill_hmake, dill_hclose as proved in C01"])
def c11(tier):
    F = "h_chan.c"; b = "queues of at most 2 peers"
    return [Unit("sendrecv", F, "sendrecv", ["dill_chsend", "dill_chrecv", "dill_chcancel"], unwind=70),
            Unit("chdone", F, "chdone", ["dill_chdone"], unwind=270, defs=["-DVF_UNB=1"], cuts=TM, fallback=Unit("chdone_b", F, "chdone", ["dill_chdone"], unwind=22, bound=b)),
            Unit("chclose", F, "chclose", ["dill_halfchan_close", "dill_halfchan_term", "dill_halfchan_query"], unwind=840, defs=["-DVF_UNB=1"], cuts=TM, fallback=Unit("chclose_b", F, "chclose", ["dill_halfchan_close", "dill_halfchan_term", "dill_halfchan_query"], unwind=66, bound=b)),
            Unit("chmake", F, "chmake", ["dill_chmake", "dill_chmake_mem", "dill_halfchan_init"], unwind=10)]
@prop("C12", "proof", "choose with any number of clauses (below 2^20) by loop contracts over its two loops: an arbitrary clause of any kind at an arbitrary index, against peer queues of any length; any deadline, any way of being resumed.",
      [SCHED, "memcpy copies the given bytes", "dill_hquery as proved in C01"])
def c12(tier):
    fb = Unit("choose_b", "h_chan.c", "choose", ["dill_choose", "dill_chcancel"], unwind=9, defs=["-DVF_CHOOSE=1", "-DNC=4"], bound="4 clauses over 2 channels", fuzzonly=True)
    C = [("chan.c", "dill_choose", 0, "sc", ["i", "rc", "chcl"]), ("chan.c", "dill_choose", 1, "rg", ["i", "chcls"]), ("chan.c", "dill_choose", "vla", "ch", ["chcls"])]
    return [Unit(n, "h_chan.c", "choose_u", ["dill_choose", "dill_chcancel"], unwind=200, defs=["-DVF_UNB=1", "-DVF_CHOOSE=1", "-DVF_PH=%d" % ph], cuts=C, fallback=fb) for n, ph in (("choose_scan", 0), ("choose_wait", 1))]
DC = [("cr.c", "dill_docancel", 0, "dc", ["it"])]
PL = [("cr.c", "dill_wait", 0, "pl", ["nw", "fired", "timeout"]), ("cr.c", "dill_wait", 1, "tm", ["fired"])]
CR = "h_cr.c"
def u_wait(tier):
    fb = Unit("wait_b", CR, "waiting_b", ["dill_wait"], defs=["-DVF_WAITB=1"], fuzzonly=True, fuzz=15)
    return [Unit("wait", CR, "waiting", ["dill_wait"], unwind=30, defs=["-DVF_WAIT=1", "-DVF_UNB=1"], cuts=PL, replace=["dill_trigger:vf_trigger"], fallback=fb),
            Unit("resumed", CR, "resumed", ["dill_wait"], unwind=8, defs=["-DVF_WAIT=1"])]
@prop("C13", "proof", "Withdrawal and resumption (dill_docancel through dill_trigger and dill_cancel) by loop contract over clause lists of any length and ready queues of any length; registration, yield, cancellation flags and the switch to the head of the ready queue loop-free or by loop contract.",
      ["the context switch itself (C25)", "rbtree functions as covered in C14", "coroutines being resumed are suspended (asserted by the library)"])
def c13(tier):
    return [Unit("wake", CR, "wake", ["dill_docancel", "dill_trigger", "dill_cancel", "dill_resume"], unwind=130, defs=["-DVF_WAKE=1", "-DVF_UNB=1"], cuts=DC,
                 fallback=Unit("wake_b", CR, "wake", ["dill_docancel", "dill_trigger", "dill_cancel"], unwind=20, defs=["-DVF_WAKE=1"], bound="at most 3 clauses")),
            Unit("reg", CR, "reg", ["dill_waitfor", "dill_timer", "dill_timer_cancel", "dill_canblock", "dill_no_blocking", "dill_ctx_cr_init"], unwind=10, defs=["-DVF_WAKE=1"]),
            Unit("yield", CR, "yield_c", ["dill_yield"], unwind=10, defs=["-DVF_YIELD=1"], replace=["dill_wait:vf_wait_y"])] + u_wait(tier)
@prop("C14", "proof", "The suspension primitive with timers of any deadlines under contract (shared with C13), timer registration and withdrawal, msleep, the clock conversions and its cache for all times. The timer tree: every red-black tree of at most 7 pending timers, every insertion rank and every erased timer (labelled bounded).",
      ["the monotonic clock does not go back", "dill_pollset_poll(timeout) returns after at most timeout milliseconds (poll/epoll_wait)"])
def c14(tier):
    L = "h_lib.c"; h = Unit("rb_history", "h_rbtree.c", "rb_history", ["dill_rbtree_insert", "dill_rbtree_erase", "dill_rbtree_first", "dill_rbtree_next"], fuzzonly=True, fuzz=5)
    b = "trees of at most 7 nodes"
    return [Unit("rb_insert", "h_rbtree.c", "rb_insert", ["dill_rbtree_insert", "dill_rbtree_first", "dill_rbtree_next", "dill_rbtree_empty"], unwind=70, bound=b if tier != "quick" else "trees of at most 6 nodes", fallback=h, timeout=250 if tier == "quick" else 2000, defs=["-DUPTO=SHAPES_UPTO6"] if tier == "quick" else []),
            Unit("rb_erase", "h_rbtree.c", "rb_erase", ["dill_rbtree_erase", "dill_rbtree_first", "dill_rbtree_next"], unwind=70, bound=b, fallback=h, timeout=250 if tier == "quick" else 2000),
            Unit("rb_init", "h_rbtree.c", "rb_init", ["dill_rbtree_init"], unwind=20),
            Unit("reg", CR, "reg", ["dill_timer", "dill_timer_cancel"], unwind=10, defs=["-DVF_WAKE=1"]),
            Unit("msleep", L, "msleep_c", ["dill_msleep"], unwind=3),
            Unit("mnow", L, "mnow_c", ["dill_mnow"], unwind=3, defs=["-DVF_NOW=1", "-DVF_MNOW=1"]),
            Unit("now", L, "now_c", ["dill_now", "dill_ctx_now_init"], unwind=3, defs=["-DVF_NOW=1"], replace=["dill_mnow:vf_mnow"])] + u_wait(tier)
BC = [("cr.c", "dill_bundle_close", 0, "bc", ["it"]), ("cr.c", "dill_bundle_finished", 0, "bf", [])]
@prop("C15", "proof", "Bundle creation, closing (loop contracts over member and waiter lists of any length, members that leave meanwhile), waiting, the close of one coroutine, the end of a coroutine and the launch (failure of every step; user-supplied memory by seeded search only: not counted as proved).",
      [SCHED, "dill_allocstack/dill_freestack as proved in C17, handle operations as proved in C01", "a coroutine does not close the bundle it is part of (the library asserts)"])
def c15(tier):
    BD = ["-DVF_BNDL=1"]; fb = lambda e, f, u: None
    return [Unit("bundle_make", CR, "bundle_make", ["dill_bundle", "dill_bundle_mem", "dill_bundle_query"], unwind=6, defs=BD),
            Unit("bundle_close", CR, "bundle_close", ["dill_bundle_close", "dill_bundle_finished", "dill_bundle_cancel"], unwind=30, defs=BD + ["-DVF_UNB=1"], cuts=BC, replace=["dill_cr_close:vf_crclose", "dill_trigger:vf_trig"]),
            Unit("cr_close", CR, "cr_close", ["dill_cr_close", "dill_cr_query"], unwind=18, defs=BD, replace=["dill_wait:vf_wait_c", "dill_cancel:vf_cancel_c"]),
            Unit("epilogue", CR, "epilogue", ["dill_epilogue"], unwind=38, defs=BD, cuts=BC[1:], replace=["dill_wait:vf_wait_e", "dill_cancel:vf_cancel_e", "dill_cr_close:vf_crclose_e", "dill_trigger:vf_trig"]),
            Unit("bundle_wait", CR, "bundle_wait", ["dill_bundle_wait", "dill_bundle_cancel"], unwind=29, defs=BD, replace=["dill_wait:vf_wait_w"]),
            Unit("prologue_s", CR, "prologue_s", ["dill_prologue"], unwind=14, defs=BD),
            Unit("prologue_u", CR, "prologue_u", ["dill_prologue"], unwind=422, defs=BD, fuzzonly=True, fuzz=3, bound="seeded search: user memory at 5 alignments, 42 lengths around the smallest sufficient one")]
EP = [("epoll.c.inc", "dill_pollset_clean", 0, "cn", ["pidx"]), ("epoll.c.inc", "dill_pollset_poll", 0, "ch", []), ("epoll.c.inc", "dill_pollset_poll", 1, "ev", ["i"])]
PP = [("poll.c.inc", "dill_ctx_pollset_init", 0, "pi", ["i"]), ("poll.c.inc", "dill_pollset_poll", 0, "pv", ["i", "fired"])]
@prop("C16", "proof", "Both poll back ends (epoll.c.inc and poll.c.inc) under contract against a model of the kernel's interest set: registration, withdrawal, cleaning, polling, by loop contracts over the change list / slot table and the event list of any length; fdin, fdout and fdclean over those contracts.",
      [SCHED, "the kernel reports for a descriptor only conditions it was asked for, errors and hang-ups", "descriptors are cleaned before they are closed (documented)", "kqueue back end not covered (not built on Linux)"])
def c16(tier):
    H = "h_poll.c"; L = "h_lib.c"; U = ["-DVF_UNB=1"]; PO = ["-DVF_POLL=1"]
    fb = lambda n, e, fns: Unit(n, H, e, fns, unwind=260, fuzzonly=True)
    return [Unit("ep_reg", H, "ep_reg", ["dill_pollset_in", "dill_pollset_out"], unwind=66), Unit("ep_range", H, "ep_range", ["dill_pollset_in", "dill_pollset_out", "dill_pollset_clean"], unwind=5),
            Unit("ep_cancel", H, "ep_cancel", ["dill_fdcancelin", "dill_fdcancelout"], unwind=66), Unit("ep_init", H, "ep_init", ["dill_ctx_pollset_init", "dill_ctx_pollset_term"], unwind=5),
            Unit("ep_clean", H, "ep_clean", ["dill_pollset_clean"], unwind=130, defs=U, cuts=EP[:1], fallback=Unit("ep_clean_b", H, "ep_clean_b", ["dill_pollset_clean"], unwind=34, bound="change lists of at most 2 entries")),
            Unit("ep_poll", H, "ep_poll", ["dill_pollset_poll"], unwind=260, defs=U, cuts=EP[1:], fallback=fb("ep_poll_b", "ep_poll", ["dill_pollset_poll"])),
            Unit("po_reg", H, "po_reg", ["dill_pollset_in (poll)", "dill_pollset_out (poll)"], unwind=66, defs=PO), Unit("po_range", H, "po_range", ["dill_pollset_clean (poll)"], unwind=18, defs=PO),
            Unit("po_cancel", H, "po_cancel", ["dill_fdcancelin (poll)", "dill_fdcancelout (poll)"], unwind=66, defs=PO), Unit("po_clean", H, "po_clean", ["dill_pollset_clean (poll)"], unwind=34, defs=PO),
            Unit("po_init", H, "po_init", ["dill_ctx_pollset_init (poll)"], unwind=18, defs=PO + U, cuts=PP[:1], nofuzz=True),
            Unit("po_poll", H, "po_poll", ["dill_pollset_poll (poll)"], unwind=66, defs=PO + U, cuts=PP[1:], fallback=Unit("po_poll_b", H, "po_poll", ["dill_pollset_poll (poll)"], fuzzonly=True, defs=PO)),
            Unit("fdwait", L, "fdwait_c", ["dill_fdin", "dill_fdout"], unwind=3), Unit("fdclean", L, "fdclean_c", ["dill_fdclean"], unwind=3)]

PX = [("prefix.c", "dill_prefix_msendl", 0, "sum", ["it", "sz"]), ("prefix.c", "dill_prefix_msendl", 1, "hdr", ["i", "sz"])]
PR = [("prefix.c", "dill_prefix_mrecvl", 0, "rh", ["i", "sz", "c"]), ("prefix.c", "dill_prefix_mrecvl", 1, "tr", ["it", "rmn"])]
BSA = ["the underlying socket obeys the byte-stream contract (dill_bsendl/dill_brecvl: all bytes in order or a failure), proved for TCP/IPC under C04"]
@prop("C05", "proof", "dill_prefix_msendl/dill_prefix_mrecvl for headers of any length (to 2^20), lists of any number of elements (to 2^20) and messages of any size, by loop contracts; the value of a header is its Horner evaluation; message bodies are tracked as segments of the caller's buffers.", BSA)
def c05(tier):
    F = "h_prefix.c"; B = "headers of 1, 2 and 9 bytes, lists of at most 2 elements of any size"
    us = []
    for e, c, fn in (("send", PX, "dill_prefix_msendl"), ("recv", PR, "dill_prefix_mrecvl"), ("recv_skip", PR, "dill_prefix_mrecvl")):
        fb = Unit(e + "_b", F, "send_b" if e == "send" else "recv_b", [fn], unwind=13, bound=B)
        us.append(Unit(e, F, e + "_u", [fn], unwind=3, defs=["-DVF_UNB=1"], cuts=c, fallback=fb))
    return us

SX = [("suffix.c", "dill_suffix_mrecvl", 0, "main", ["sz", "it", "rc", "iol"]), ("suffix.c", "dill_suffix_mrecvl", 1, "skip", ["it"])]
@prop("C06", "proof", "dill_suffix_msendl (loop-free) and dill_suffix_mrecvl (nested loop contracts) for every delimiter of 1 to 32 bytes, every incoming stream, buffer lists of any number of elements and messages of up to 2^30 bytes; 'first occurrence' and buffer contents by arbitrary witness positions.", BSA)
def c06(tier):
    F = "h_suffix.c"; B = "streams of 8 bytes, delimiters of at most 3 bytes, lists of at most 2 elements"
    us = []
    for e, c, fn in (("send", [], "dill_suffix_msendl"), ("recv", SX, "dill_suffix_mrecvl"), ("recv_skip", SX, "dill_suffix_mrecvl")):
        fb = Unit(e + "_b", F, "send_b" if e == "send" else "recv_b", [fn], unwind=42, bound=B)
        us.append(Unit(e, F, e + "_u", [fn], unwind=34, defs=["-DVF_UNB=1"], cuts=c, fallback=fb))
    return us

TX = [("term.c", "dill_term_detach", 0, "det", ["self", "err"])]
@prop("C07", "proof", "dill_term_mrecvl and dill_term_msendl over caller's lists of any number of elements and any size (dill_ioltrim/dill_iolto by their contracts), done, and detach by loop contract over any number of pending messages; every terminator of 0 to 32 bytes, every message.",
      ["the underlying message socket delivers one whole message per receive or fails (EMSGSIZE if it doesn't fit the list)", "dill_ioltrim, dill_iolto as proved in C03", "dill_hquery, dill_hclose as proved in C01"])
def c07(tier):
    F = "h_term.c"; B = "terminators of at most 3 bytes, messages of at most 8 bytes, lists of at most 2 elements"; U = ["-DVF_UNB=1"]
    return [Unit("send", F, "send_u", ["dill_term_msendl"], unwind=34, defs=U, fallback=Unit("send_b", F, "send_b", ["dill_term_msendl"], fuzzonly=True, fuzz=10, bound=B)),
            Unit("recv", F, "recv_u", ["dill_term_mrecvl"], unwind=34, defs=U, fallback=Unit("recv_b", F, "recv_b", ["dill_term_mrecvl"], fuzzonly=True, fuzz=10, bound=B)),
            Unit("recv_skip", F, "recv_skip_u", ["dill_term_mrecvl"], unwind=34),
            Unit("done", F, "done_u", ["dill_term_done"], unwind=34),
            Unit("detach", F, "detach_u", ["dill_term_detach", "dill_term_hclose"], unwind=34, cuts=TX)]

WSC = [("ws.c", "dill_ws_attach_client_mem", 0, "cl", ["err", "rc", "has_upgrade", "has_connection", "has_key"])]
WSS = [("ws.c", "dill_ws_attach_server_mem", 0, "sv", ["err", "rc", "has_host", "has_upgrade", "has_connection", "has_key", "has_version", "response_key"])]
WR = ["dill_ws_request_key:vf_reqkey", "dill_ws_response_key:vf_respkey"]
def own_ws(tier):
    F = "h_own.c"; us = []
    B = ["-DP_WS=1", '-DOBJSZ=sizeof(struct dill_ws_storage)']
    for nm, d, km, c in (("client", ["-DP_CLIENT=1"], 17, WSC), ("server", [], 12, WSS)):
        fn = "dill_ws_attach_" + nm
        us.append(Unit("ws_%s_nohttp" % nm, F, "own_close", [fn, fn + "_mem", "dill_ws_hclose"], unwind=42, defs=B + d + ["-DNOHTTP=1"], cuts=c, replace=WR,
                       fallback=Unit("ws_%s_nohttp_b" % nm, F, "own_close", [fn, fn + "_mem"], unwind=42, defs=B + d + ["-DNOHTTP=1"], replace=WR, fuzzonly=True, fuzz=10)))
        dd = B + d + ["-DNOHTTP=0", "-DKMAX=%d" % km]
        us.append(Unit("ws_%s" % nm, F, "own_hs", [fn, fn + "_mem", "dill_ws_hclose"], unwind=66, defs=dd, cuts=c, replace=WR, flags=["--max-field-sensitivity-array-size", "300", "--object-bits", "12"],
                       fallback=Unit("ws_%s_b" % nm, F, "own_hs", [fn, fn + "_mem"], unwind=66, defs=dd + ["-DUNCUT=1"], replace=WR, fuzzonly=True, fuzz=10)))
    us.append(Unit("ws_detach", F, "own_detach", ["dill_ws_detach"], unwind=42, defs=B + ["-DNOHTTP=1"], replace=["dill_ws_recvl_base:vf_recvl", "dill_ws_sendl_base:vf_sendl"]))
    return us
@prop("C20", "proof", "Attach (library or caller memory), close and detach of prefix, suffix, term, http and ws over ghost ownership state of handles, memory and the underlying socket, with failure of every allocation, handle operation and step; the handshake loops of ws by loop contract. Creation, accept, fromfd and close of tcp, ipc and udp sockets over ghost descriptors.",
      ["handle operations as proved in C01", "tls.c is not covered (OpenSSL)"])
def c20(tier):
    F = "h_own.c"; us = []
    for p, fns in (("prefix", []), ("suffix", []), ("term", []), ("http", [])):
        d = ["-DP_%s=1" % p.upper(), "-DOBJSZ=sizeof(struct dill_%s_storage)" % p]
        r = ["dill_term_mrecvl:vf_mrecvl"] if p == "term" else []
        us.append(Unit(p + "_close", F, "own_close", ["dill_%s_%s" % (p, x) for x in ("attach", "attach_mem", "hclose", "hquery")], unwind=42, defs=d))
        if p != "http": us.append(Unit(p + "_args", F, "own_args", ["dill_%s_attach_mem" % p], unwind=42, defs=d))
        us.append(Unit(p + "_detach", F, "own_detach", ["dill_%s_detach" % p], unwind=42, defs=d, replace=r))
    G = "h_stream.c"
    for p in ("tcp", "ipc"):
        d = ["-DP_%s=1" % p.upper()]
        us += [Unit(p + "_conn", G, "of_conn", ["dill_%s_%s" % (p, x) for x in ("connect", "connect_mem", "fromfd", "fromfd_mem", "makeconn", "hclose", "hquery")], unwind=130, defs=d),
               Unit(p + "_listen", G, "of_listen", ["dill_%s_%s" % (p, x) for x in ("listen", "listen_mem", "listener_fromfd", "listener_fromfd_mem", "makelistener", "listener_hclose", "listener_hquery", "close")], unwind=130, defs=d),
               Unit(p + "_accept", G, "of_accept", ["dill_%s_%s" % (p, x) for x in ("accept", "accept_mem")], unwind=130, defs=d)]
    us += [Unit("ipc_pair", G, "of_pair", ["dill_ipc_pair", "dill_ipc_pair_mem"], unwind=130, defs=["-DP_IPC=1"]),
           Unit("udp_open", G, "of_udp", ["dill_udp_open", "dill_udp_open_mem", "dill_udp_hclose", "dill_udp_hquery"], unwind=130, defs=["-DP_UDP=1"])]
    return us + own_ws(tier)
@prop("C19", "proof", "Send, receive, done, close and descriptor passing of tcp.c and ipc.c from every state of the direction flags, with every outcome of the underlying operation (as proved in C03, C04, C16) and another coroutine trying to use the same direction while the first one waits.",
      ["fd.c as proved in C03, C04 and C16; handle operations as in C01", "shutdown fails only with ENOTCONN or ENOBUFS on an open stream socket", "at most one control message per received byte (CMSG_NXTHDR)"])
def c19(tier):
    G = "h_stream.c"; us = []
    for p in ("tcp", "ipc"):
        d = ["-DP_%s=1" % p.upper()]
        for e, fn in (("send", "bsendl"), ("recv", "brecvl"), ("done", "done"), ("close", "close")):
            us.append(Unit("%s_%s" % (p, e), G, "st_" + e, ["dill_%s_%s" % (p, fn)], unwind=130, defs=d))
    us += [Unit("ipc_sendfd", G, "st_sendfd", ["dill_ipc_sendfd"], unwind=130, defs=["-DP_IPC=1"]), Unit("ipc_recvfd", G, "st_recvfd", ["dill_ipc_recvfd"], unwind=130, defs=["-DP_IPC=1"])]
    return us

@prop("C21", "proof", "UDP send and receive over a ghost kernel that answers any sequence of datagrams (any sender, length, truncation) and errors; the receive loop by contract, any list of any length. Opening over ghost descriptors with failure of every step.",
      ["iolist functions as proved with C04 (dill_iolcheck, dill_ioltoiov)", "dill_fdin as proved in C03", "the kernel reports a datagram cut short by MSG_TRUNC", "EAGAIN equals EWOULDBLOCK"])
def c21(tier):
    F = "h_udp.c"
    return [Unit("udp_send", F, "ud_send", ["dill_udp_send", "dill_udp_sendl", "dill_udp_msendl", "dill_udp_sendl_"], unwind=30),
            Unit("udp_recv", F, "ud_recv", ["dill_udp_recv", "dill_udp_recvl", "dill_udp_mrecvl", "dill_udp_recvl_"], unwind=30, cuts=[("udp.c", "dill_udp_recvl_", 0, "ur", ["rc", "hdr", "raddr", "addr", "MSG_TRUNC"])],
                 fallback=Unit("udp_recv_b", F, "ud_recv", ["dill_udp_recvl_"], fuzzonly=True, fuzz=10)),
            Unit("udp_open", "h_stream.c", "of_udp", ["dill_udp_open", "dill_udp_open_mem", "dill_udp_hclose", "dill_udp_hquery"], unwind=130, defs=["-DP_UDP=1"])]

@prop("C18", "proof", "All functions of ipaddr.c: literals under every mode and port with inet_pton/inet_ntop as contracts, interface lookup over a list of any length (loop contract), DNS answers of any number (loop contract), accessors and comparison for all byte contents.",
      ["inet_pton and inet_ntop are inverse and correct", "the DNS resolver (dns/dns.c) is an external dependency: answers are arbitrary", "getifaddrs succeeds with a non-empty list", "a name is never both an IPv4 and an IPv6 literal"])
def c18(tier):
    F = "h_ipaddr.c"
    return [Unit("ip_local", F, "ip_local", ["dill_ipaddr_local", "dill_ipaddr_literal", "dill_ipaddr_ipany", "dill_ipaddr_ipv4_literal", "dill_ipaddr_ipv6_literal", "dill_ipaddr_str"], unwind=40, cuts=[("ipaddr.c", "dill_ipaddr_local", 0, "if", ["it", "ipv4", "ipv6"])],
                 fallback=Unit("ip_local_b", F, "ip_local", ["dill_ipaddr_local"], unwind=40, fuzzonly=True, fuzz=10)),
            Unit("ip_remote", F, "ip_remote", ["dill_ipaddr_remote", "dill_ipaddr_remotes", "dill_ipaddr_literal"], unwind=40, cuts=[("ipaddr.c", "dill_ipaddr_remotes", 0, "dn", ["rc", "addrs", "naddrs", "nresults", "it", "mode", "inaddr", "fd", "events", "err", "errno", "DNS_POLLOUT"])],
                 fallback=Unit("ip_remote_b", F, "ip_remote", ["dill_ipaddr_remotes"], unwind=40, fuzzonly=True, fuzz=10)),
            Unit("ip_dns", F, "ip_dns", ["dill_ipaddr_remotes", "dill_ipaddr_remote"], unwind=40, defs=["-DCUT=1"], bound="room for at most 4 results (any number of answers)", cuts=[("ipaddr.c", "dill_ipaddr_remotes", 0, "dn", ["rc", "addrs", "naddrs", "nresults", "it", "mode", "inaddr", "fd", "events", "err", "errno", "DNS_POLLOUT"])],
                 fallback=Unit("ip_dns_b", F, "ip_dns", ["dill_ipaddr_remotes"], unwind=40, fuzzonly=True, fuzz=10)),
            Unit("ip_equal", F, "ip_equal", ["dill_ipaddr_equal", "dill_ipaddr_setport", "dill_ipaddr_port", "dill_ipaddr_len", "dill_ipaddr_family"], unwind=40)]

@prop("C10", "proof", "All of socks5.c over a ghost bytestream: any bytes from the other side, failure at any step, credentials and names of any length, any address and port. What is sent is compared at an arbitrary stream position with the RFC 1928/1929 sequence written from the RFC; what is reported is compared with the ghost input.",
      ["dill_bsend sends and dill_brecv receives exactly the given number of bytes or fails (C04)", "inet_pton recognises address literals", "dill_ipaddr_* as proved in C18", "copies of an unknown length (credentials, names) are exact at arbitrary witness positions, the other bytes of the fresh buffer stay unconstrained", "memchr and strlen as in the C standard"])
def c10(tier):
    F = "h_socks5.c"; A = ["--arrays-uf-always"]; P = lambda n, *d: ["-DVF_PART=%d" % n, "-DSPARSE=1"] + list(d)
    au = ["dill_socks5_client_connect", "s5_client_auth"]; bn = ["dill_socks5_client_connectbyname", "s5_client_connectbyname"]; ad = ["s5_client_connect", "s5_ipaddr_to_s5addr"]
    U = lambda n, e, fns, defs, fl=[]: Unit(n, F, e, fns, unwind=260, defs=defs, flags=fl, timeout=600)
    return [U("cli_cred", "s5_client", au, P(1, "-DVF_CRED=1", "-DVF_STOP=1", "-DEX=4"), A),
            U("cli_req", "s5_client", au + ad, P(1, "-DVF_CRED=1", "-DVF_STOP=2", "-DEX=4"), A),
            U("cli_name", "s5_client", bn, P(1, "-DVF_BYNAME=1", "-DVF_STOP=2", "-DEX=4"), A),
            U("cli_addr", "s5_client", ad, P(1, "-DVF_STOP=2", "-DEX=4"), A),
            U("cli_reply", "s5_client", ["s5_handle_connection_response", "s5_recv_command_request_response"], P(1, "-DVF_STOP=0")),
            U("prx_noauth", "s5_auth", ["dill_socks5_proxy_auth"], P(2, "-DFN=0")),
            U("prx_user", "s5_auth", ["dill_socks5_proxy_auth"], P(2, "-DFN=1", "-DWIT=1")),
            U("prx_pass", "s5_auth", ["dill_socks5_proxy_auth"], P(2, "-DFN=1", "-DWIT=2")),
            U("prx_cmd", "s5_cmd", ["dill_socks5_proxy_recvcommand", "s5_s5addr_to_ipaddr", "s5_recv_command_request_response"], P(3)),
            U("prx_cmdname", "s5_cmdname", ["dill_socks5_proxy_recvcommandbyname", "s5_recv_command_request_response"], P(3)),
            U("prx_reply", "s5_reply", ["dill_socks5_proxy_sendreply", "s5_ipaddr_to_s5addr"], P(3))]
