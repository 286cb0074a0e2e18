// Deterministic simulator: scheduler, clocks, heap, faults, happens-before.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <map>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next() {
		u64 z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
	bool p(double pr) { return (next() >> 11) * (1.0 / 9007199254740992.0) < pr; }
	bool one_in(u64 n) { return below(n) == 0; }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};
u64 mix(u64 a, u64 b);

// ---------------------------------------------------------------- faults
enum Fault {
	F_ALLOC, F_MUTEX_INIT, F_COND_INIT, F_THREAD, F_SPURIOUS, F_SIGPICK, F_CASWEAK,
	F_OPEN, F_READ, F_RAND, F_TTYGET, F_TTYSET, F_TTYREAD, F_WALLJUMP, F_TIMER, F_IMPL, NF
};
extern const char* fault_name[NF];
enum { K_SCHED = 200 };      // decision kind of a context switch
enum { TIMER = 255 };        // context-switch target: fire the next timer instead

struct Decision { u8 kind; u8 tid; u64 key; i32 val; };

// ---------------------------------------------------------------- program
struct Op { i32 code; i64 a, b, c; };
enum { MAXT = 100 };

struct Env {                 // environment of one run; part of the replay file
	i64 fill = 0xa5;         // byte that fresh memory and stacks hold
	i64 wall_sec = 1700000000, wall_nsec = 0, mono_sec = 1000, mono_nsec = 0;
	i64 tick = 0;            // nanoseconds that pass per clock reading
	i64 entropy = 1;         // seed of the simulated entropy source
	i64 cap = 2000000;       // step bound of the run
	i64 maxalloc = 48 << 20; // requests larger than this find no memory
};
struct Prog {
	Env env;
	std::vector<i64> cfg;
	std::vector<std::vector<Op>> thr;
};

struct Strategy {            // how decisions are drawn while exploring
	int kind = 0;            // 0 random per access, 1 priorities, 2 at synchronisation only
	double p_step = 0, p_sync = 0, p_timer = 0;
	int depth = 0; u64 horizon = 1000;
	double fp[NF] = {0};
	int alloc_mode = 0; u64 alloc_at = 0, alloc_len = 0;
};

struct Violation { bool set = false; std::string cls, msg; };

// One execution.
struct Result {
	Violation v;
	u64 hash = 0;            // everything observable in the run
	u64 sched_hash = 0;      // program plus sequence of switches and faults
	u64 steps = 0, switches = 0;
	u64 sim_ns = 0;
	u64 faults[NF] = {0};
	u32 threads = 0;
	std::vector<Decision> dec;
};

struct Scenario {
	const char* name;
	const char* property;
	int weight;
	// Fill program, environment and exploration strategy for one run.
	void (*gen)(Rng& r, Prog& p, Strategy& s);
	// Body, run as simulated thread 0.
	void (*body)(const Prog& p);
	const char* (*opname)(int code);
};
std::vector<Scenario>& scenarios();
struct Reg { Reg(Scenario s) { scenarios().push_back(s); } };

// Exploring run: dec == nullptr. Replay: decisions given.
Result run(const Scenario& sc, const Prog& p, const Strategy* strat, u64 dseed,
		const std::vector<Decision>* dec, bool verbose);

// ---------------------------------------------------------------- used by scenario bodies
[[noreturn]] void fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)

int spawn(std::function<void()> f);       // start a simulated thread
int spawn_copy(int n, std::function<void()> f);      // a thread that, with those it starts, has its own fault switch, leak check and thread count (n: 1 or 2)
u64 run_number();   // of this process: only to tell one run from the next
int copy_of();                            // which of these the current thread belongs to, 0: none
void join(int tid);
void join_all();                          // all threads the body spawned
void quiesce();                           // until no other thread can run (timers have not been fired)
void settle();                            // until no other thread can run and no timer is pending
enum { W_NONE, W_LOCK, W_COND, W_SLEEP, W_JOIN, W_DONE };
int wait_kind(int tid);                   // what a thread is blocked on
bool wait_timed(int tid);
u64 cond_waits();                         // condition waits / sleeps entered by this thread
u64 sleeps();
i64 ready_adv();                          // simulated time that passed while this thread was ready or waiting for a lock
int self();
u64 now();                                // event stamp, strictly increasing
void note(u64 v);                         // add an observation to the run hash
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
void yield();                             // a scheduling point in harness code
void faults(bool on);                     // enable/disable fault injection (default off)
void fault_mask(u32 mask);                // restrict to these fault kinds
struct NoFaults { NoFaults(); ~NoFaults(); };
u64 faults_so_far(Fault f);
u64 my_faults(Fault f);                   // injected in the current thread
bool alloc_fails();
bool fault_now(Fault f);              // for stand-ins kept with a scenario                       // for memory the harness hands out on behalf of another library: does this request fail?
i64 wall_ns();                            // simulated clocks
i64 mono_ns();
i64 last_wake_wall();                     // wall clock when the last wait of this thread ended
bool thread_done(int tid);
void advance_ns(i64 ns);
void set_wall_ns(i64 ns);                 // step the wall clock
int held_locks();                         // by the current thread
bool me_woken();                          // last condition wait was ended by signal or spuriously
u64 waits_woken();                        // number of waits of this thread ended by signal/spurious wakeup
u64 blocked_count();                      // number of times this thread blocked
int live_threads();                       // simulated threads not yet ended
int thread_state_blocked(int tid);
u64 thread_steps(int tid);

// Heap ledger.
void* halloc(size_t n);                   // checked memory owned by the harness
void* halloc_end(size_t n);               // the same, right-aligned: not one byte after it is accessible
void hfree(void* p);
size_t live_blocks();                     // library-owned blocks not freed
std::string live_desc();
std::string text_at(const char* s, const char* what);      // a terminated string, or a violation
bool is_live(const void* p);
size_t block_size(const void* p);         // size of live block starting at p, or 0
void check_no_leak(const char* what);
void forget_locks();                      // locks made so far have no destroy call
bool range_ok(const void* p, size_t n);   // readable in the simulated heap (or not in it)
u64 alloc_count();
void unlimited_alloc(bool on);

// Happens-before on harness-defined keys.
void hb_write(const void* key, const char* what);
void hb_read(const void* key, const char* what);
void hb_forget(const void* key);

// Simulated entropy and terminal.
struct Io {
	// entropy
	std::vector<bool> fds;                // which descriptors are open
	std::vector<u8> produced;             // every byte the generator produced, in order
	u64 opens = 0, closes = 0, reads = 0, seeds = 0, rand_calls = 0, rand_fail = 0, seeded_bytes = 0, os_want = 0;
	int stream = 0;                       // 0 random, 1 recognisable, 2 and 3 with repeated words
	int zero_fill = 0;                    // deliver zero bytes this many more times
	// terminal
	std::string input; size_t in_pos = 0;
	bool tty = true; u32 lflag = 0; u32 lflag0 = 0; bool garbage_set = false;
	u64 tty_sets = 0, tty_gets = 0; bool echo_during_read = false; u64 reads_done = 0;
	std::string output;
};
extern Io io;
enum { TTY_COOKIE = 0x51a7 };

// Coverage probes, counted over all runs of a check.
void probe(const char* name);
std::map<std::string, u64>& probes();

u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull);
} // namespace sim
