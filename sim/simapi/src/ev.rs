//! Kinds of history records.
macro_rules! kinds {
    ($($n:ident = $v:expr),* $(,)?) => {
        $(pub const $n: u32 = $v;)*
        pub fn name(k: u32) -> &'static str {
            match k {
                $($v => stringify!($n),)*
                _ => "EV",
            }
        }
    };
}
kinds! {
    FAULT = 1, NODE_DOWN = 2, NODE_UP = 3,
    PANIC = 10, NOTE = 11, FINISH = 12, BAD = 13,
    SPAWN = 20, START = 21, DEATH = 22, RETURN = 23, SCRIPT_END = 24,
    SEND = 30, SENT = 31, RECV = 32, TIMEOUT = 33, SELECT = 34, REMOVE = 35, REMOVED = 36, RECEIVING = 37, RECEIVED = 38,
    LINK = 40, LINKED = 41, UNLINK = 42, UNLINKED = 43, EXIT_MSG = 44, EXIT = 45, EXITED = 46,
    TRAP = 47, MONITOR = 48, MONITORED = 49, DEMONITOR = 50, DEMONITORED = 51, DOWN = 52, PANICKING = 53,
    ALIVE = 54, LIST = 55,
    REG = 60, REGISTERED = 61, UNREG = 62, UNREGISTERED = 63, WHEREIS = 64, WHEREIS_RET = 65, NAMES = 66,
    TIMER = 70, TIMER_SET = 71, CANCEL = 72, CANCELLED = 73, READ = 74, READ_RET = 75,
    ALIAS = 80, ALIASED = 81, UNALIAS = 82, UNALIASED = 83,
    CALL = 90, CALL_RET = 91, HANDLE = 92, HANDLED = 93, INIT = 94, INIT_DONE = 95, TERMINATE = 96, CAST = 97,
    STARTING = 98, STARTED = 99, STOP = 100, STOPPED = 101, INFO = 102, REPLY = 103, TERMINATED = 104, INFO_RET = 105,
    SUP = 110, SUP_RET = 111, CHILD_UP = 112, CHILD_DOWN = 113, ORDER = 114, SUP_DOWN = 115, TABLE = 116,
    CONNECT = 120, DISCONNECT = 121, NODES = 122, NODE_UPMSG = 123, NODE_DOWNMSG = 124, NMON = 125, NDEMON = 126,
    HEAL = 127, PROBE = 128, PROBE_RET = 129, NODE_STARTED = 130, NODE_STOP = 131, HOSTILE = 132, NMON_RET = 133,
    LEAK = 134, FORGET = 135, NET_UP = 136, NET_CLOSE = 137,
    INV = 140, RET = 141,
    WS_ACCEPT = 150, WS_HANDLE = 151, WS_TERM = 152, WS_CLIENT = 153, WS_SEND = 154, WS_RECV = 155, WS_CLOSED = 156,
    RG_CALL = 170, RG_RET = 171, RG_MADE = 172, RG_FAIL = 173, RG_STOP = 174, RG_FINAL = 175, RG_LEFT = 176, RG_DUP = 177,
    RING = 180, RING_RET = 181, RING_SET = 182, RING_ORDER = 183,
    SEM = 184, SEM_RET = 185, SEM_FREE = 186, TASK = 187, TASK_END = 188, TASK_WAIT = 189, TASK_RET = 190, TASK_STEP = 191, SEM_FREED = 192, COUNT = 193,
    APP_RUN = 160, APP_RET = 161, APP_START = 162,
}
