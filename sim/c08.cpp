// C08: concurrent and nested parses do not influence each other.
//
// Every task is a real thread; one of them runs at a time, and the simulator decides at every basic
// block of the code under test whether to go on with another one.
#include "c08_ops.hpp"
#include <pthread.h>
#include <semaphore.h>

// Scheduling code is not a part of the simulated steps.
#define SCHED __attribute__((no_sanitize("coverage")))

const char* const   sim::property_id = "C08";
const std::uint64_t sim::step_limit  = 100000000;

using namespace gram;
using sim::choose;

namespace
{
std::vector<grammar>& sorted()
{
    static std::vector<grammar> g = [] {
        auto v = grammars();
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
        return v;
    }();
    return g;
}

struct job // one parse
{
    const grammar*                   g = nullptr;
    std::shared_ptr<const c08_input> input;
    action                           a = act_parse;
    std::string                      expect;
    std::uint64_t                    steps = 0, points = 0;
    void check(const std::string& got, const char* how) const
    {
        if (got == expect)
            return;
        std::size_t i = 0;
        while (i < got.size() && i < expect.size() && got[i] == expect[i])
            ++i;
        auto from = i > 60 ? i - 60 : 0;
        sim::violate("influenced", "grammar %s, %s, run %s gives ...%s instead of ...%s", g->name, action_names[a], how,
                     sim::printable(got.substr(from, 160)).c_str(), sim::printable(expect.substr(from, 160)).c_str());
    }
};
struct task
{
    job                      j;
    std::uint64_t            nest_at = 0; // at which call of user code another parse runs, 0 = none
    job                      nested, nested2;
    std::uint64_t            nest2_at = 0;
    std::string              got;
    bool                     done = false, started = false;
    sem_t                    go;
    pthread_t                thread;
    task() { sem_init(&go, 0, 0); }
    ~task() { sem_destroy(&go); }
    task(const task&) = delete;
};

std::vector<std::unique_ptr<task>> tasks;
std::size_t                        current;
std::uint64_t                      countdown; // 0 = no preemption
unsigned                           switches, max_switches;
std::uint64_t                      slice, lockstep, warm_up; // lockstep: everyone takes equal steps after the warm-up
std::uint64_t                      schedule;
sem_t                              all_done;
SCHED void                         wait(sem_t* s)
{
    while (sem_wait(s) != 0)
        ;
}

void pick_slice()
{
    countdown = 0;
    if (switches >= max_switches)
        return;
    if (lockstep)
    {
        countdown               = tasks[current]->started ? lockstep : warm_up;
        tasks[current]->started = true;
        return;
    }
    switch (choose(4, "slice"))
    {
    case 0: // to the end
        break;
    case 1:
        countdown = 1 + choose(30, "blocks");
        break;
    case 2:
        countdown = 1 + choose(1000, "blocks");
        break;
    case 3:
        countdown = 1 + choose(slice, "blocks");
        break;
    }
}
// Hands over to a task that is not done; false if there is none.
SCHED bool switch_to_other(bool current_done)
{
    std::size_t ready[8], count = 0; // nothing to clean up after the hand-over
    for (std::size_t i = 0; i < tasks.size(); ++i)
        if (!tasks[i]->done && i != current)
            ready[count++] = i;
    if (count == 0)
        return false;
    auto from = current;
    current   = ready[choose(count, "next task")];
    ++switches;
    schedule = schedule * 1099511628211ull + current * 131 + (sim::steps() & 0xFFFF);
    sim::ev("task %zu -> %zu at step %llu", from, current, (unsigned long long)sim::steps());
    pick_slice();
    auto mine = &tasks[from]->go; // the vector belongs to others from here on
    sem_post(&tasks[current]->go);
    if (!current_done)
        wait(mine);
    return true;
}
thread_local bool in_task = false;
SCHED void        on_step()
{
    if (!in_task || countdown == 0 || --countdown != 0)
        return;
    in_task = false;
    if (switches < max_switches)
    {
        sim::fault("preemption");
        if (!switch_to_other(false))
            pick_slice();
    }
    in_task = true;
}

thread_local task*    my_task;
thread_local unsigned nest_level;
void                  run_nested(const job& j, const char* how)
{
    ++nest_level;
    auto saved = user.points;
    user.points = 0;
    auto got   = j.input->run(j.a);
    user.points = saved;
    --nest_level;
    j.check(got, how);
    sim::fault("nested-parse");
}
void at_point(const char*)
{
    auto t = my_task;
    if (nest_level == 0 && user.points == t->nest_at)
        run_nested(t->nested, "inside of another parse's callback");
    else if (nest_level == 1 && t->nest2_at && user.points == t->nest2_at)
        run_nested(t->nested2, "inside of a nested parse's callback");
}

SCHED void* thread_main(void* p)
{
    auto t = static_cast<task*>(p);
    wait(&t->go);
    my_task       = t;
    user          = user_t();
    user.at_point = t->nest_at ? &at_point : nullptr;
    in_task       = true;
    t->got        = t->j.input->run(t->j.a);
    in_task       = false;
    if (user.live != 0)
        sim::violate("value-leak", "grammar %s: %lld values are still alive", t->j.g->name, (long long)user.live);
    t->done = true;
    if (!switch_to_other(true))
        sem_post(&all_done);
    return nullptr;
}

action only; // everyone does the same
// Decides on a parse and runs it alone.
void make_job(job& j, const std::vector<std::unique_ptr<task>>& others)
{
    if (!others.empty() && sim::chance(40, "share an input"))
    {
        auto& o = others[choose(others.size(), "whose")]->j;
        j.g     = o.g;
        j.input = o.input;
    }
    else
    {
        j.g       = others.empty() || !sim::chance(40, "same grammar") ? &sim::pick(sorted(), "grammar") : others[0]->j.g;
        auto text = make_text(*j.g, 150, 2);
        j.input.reset(static_cast<c08_ops*>(j.g->ops)->open(unsigned(choose(2, "input kind")), text));
        sim::ev("%s over a %s: %s", j.g->name, j.input->name(), sim::printable(text).c_str());
    }
    j.a         = only < act_kinds ? only : action(choose(act_kinds, "action"));
    auto before = sim::steps();
    user        = user_t();
    j.expect    = j.input->run(j.a);
    j.points    = user.points;
    j.steps     = sim::steps() - before;
}
} // namespace

void sim::run_once()
{
    tasks.clear();
    auto n = 1 + choose(4, "tasks");
    slice  = 100;
    only   = sim::chance(30, "same action") ? action(choose(act_kinds, "action of all")) : act_kinds;
    for (std::size_t i = 0; i < n; ++i)
    {
        auto t = std::make_unique<task>();
        make_job(t->j, tasks);
        slice = std::max<std::uint64_t>(slice, t->j.steps);
        if (t->j.points > 0 && sim::chance(n == 1 ? 90 : 30, "nested parse"))
        {
            make_job(t->nested, tasks);
            t->nest_at = 1 + choose(t->j.points, "at call");
            if (t->nested.points > 0 && sim::chance(30, "nested twice"))
            {
                make_job(t->nested2, tasks);
                t->nest2_at = 1 + choose(t->nested.points, "at call");
            }
        }
        tasks.push_back(std::move(t));
    }
    user         = user_t();
    sem_init(&all_done, 0, 0);
    switches     = 0;
    schedule     = 0;
    max_switches = unsigned(4 + choose(60, "switches"));
    lockstep     = 0;
    if (n > 1 && sim::chance(20, "lockstep"))
    {
        static const std::uint64_t steps[] = {1000, 300, 100, 37, 10, 3};
        lockstep     = steps[choose(6, "equal steps")];
        warm_up      = lockstep + choose(slice, "warm-up");
        max_switches = 400;
    }
    current      = choose(n, "first task");
    for (auto& t : tasks)
        if (pthread_create(&t->thread, nullptr, thread_main, t.get()) != 0)
            std::abort();
    sim::step_hook = on_step;
    pick_slice();
    sem_post(&tasks[current]->go);
    wait(&all_done);
    sim::step_hook = nullptr;
    for (auto& t : tasks)
        pthread_join(t->thread, nullptr);
    std::uint64_t h = schedule;
    for (auto& t : tasks)
    {
        t->j.check(t->got, n == 1 ? "with another parse inside" : "next to others");
        h = sim::hash(t->j.g->name, h * 31 + t->j.a);
    }
    if (switches > n)
        sim::probe("interleaved");
    sim::state(h);
    tasks.clear();
}
