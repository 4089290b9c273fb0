// C19: the thread pool runs every task exactly once before join returns.
#include <knp/backends/thread_pool/thread_pool.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "vp.hpp"

namespace ex = knp::backends::cpu_executors;

namespace
{
void work(unsigned kind)
{
    switch (kind)
    {
        case 1: std::this_thread::yield(); break;
        case 2: std::this_thread::sleep_for(std::chrono::microseconds(30)); break;
        case 3: for (volatile int i = 0; i < 500; ++i) {} break;
        default: break;
    }
}

// Counters are plain: only what the pool synchronises keeps their use free of races.
struct Task
{
    unsigned kind = 0;
    std::vector<Task> children;
    int runs = 0;
};

size_t count(const std::vector<Task> &v)
{
    size_t n = 0;
    for (auto &t : v) n += 1 + count(t.children);
    return n;
}

Task gen(vp::Case &c, unsigned depth)
{
    Task t;
    t.kind = static_cast<unsigned>(c.weighted({6, 2, 1, 1}));
    if (depth && c.chance(1, 4))
        for (size_t n = c.range(1, 3); n; --n) t.children.push_back(gen(c, depth - 1));
    return t;
}

void run_task(ex::ThreadPool &pool, Task &t)
{
    work(t.kind);
    for (auto &child : t.children) pool.post([&pool](Task &x) { run_task(pool, x); }, std::ref(child));
    ++t.runs;
}

std::string wrong(const std::vector<Task> &v)
{
    for (auto &t : v)
    {
        if (t.runs != 1) return VP_STR("a task ran " << t.runs << " times");
        const auto s = wrong(t.children);
        if (!s.empty()) return s;
    }
    return "";
}

void history(vp::Case &c)
{
    const size_t threads = c.range(1, 6);
    const bool join_at_end = c.chance(2, 3);
    const size_t rounds = c.len(1, 12);
    VP_NOTE(c, threads << " threads\n");
    std::vector<std::vector<Task>> all(rounds);
    size_t total = 0;
    {
        ex::ThreadPool pool(threads);
        size_t pending_from = 0;
        for (size_t r = 0; r < rounds; ++r)
        {
            auto &batch = all[r];
            if (c.chance(1, 60)) batch.resize(c.range(300, 4000));  // At once.
            else
                for (size_t n = c.len(0, 30); n; --n) batch.push_back(gen(c, 2));
            const size_t n = count(batch);
            total += n;
            VP_NOTE(c, "post " << batch.size() << " tasks, " << n << " with those they post\n");
            for (auto &t : batch)
            {
                if (c.flag())
                    pool.post([&pool](Task *x, int a, const std::string &b) { if (a == 7 && b == "seven") run_task(pool, *x); }, &t, 7, std::string("seven"));
                else
                    pool.post([&pool, &t] { run_task(pool, t); });
            }
            const bool join = r + 1 < rounds ? c.flag() : join_at_end;
            if (!join) continue;
            VP_NOTE(c, "join\n");
            pool.join();
            for (; pending_from <= r; ++pending_from)
            {
                const auto w = wrong(all[pending_from]);
                VP_CHECK(c, w.empty(), "join", "after join, batch " << pending_from << ": " << w);
            }
            if (c.chance(1, 6)) pool.join();  // nothing to wait for
        }
        if (!join_at_end) VP_NOTE(c, "destroy\n");
    }
    for (auto &b : all)
    {
        const auto w = wrong(b);
        VP_CHECK(c, w.empty(), "end", "after the pool was destroyed: " << w);
    }
    if (threads >= 2 && total >= 5) c.nontrivial();
}

// Tasks that need each other: posting does not wait for them, and as many as there are threads run at a time.
void together(vp::Case &c)
{
    const size_t threads = c.range(1, 6), rounds = c.len(1, 6);
    VP_NOTE(c, threads << " threads\n");
    ex::ThreadPool pool(threads);
    for (size_t r = 0; r < rounds; ++r)
    {
        std::mutex m;
        std::condition_variable cv;
        size_t here = 0;
        bool open = false;
        const bool gate = c.flag();
        const size_t extra = c.len(0, 5);
        int done = 0;
        VP_NOTE(c, (gate ? "tasks wait until all were posted\n" : "tasks wait for each other\n"));
        for (size_t i = 0; i < threads; ++i)
            pool.post(
                [&]
                {
                    std::unique_lock lock(m);
                    ++here;
                    cv.notify_all();
                    cv.wait(lock, [&] { return gate ? open : here == threads; });
                    ++done;
                });
        for (size_t i = 0; i < extra; ++i)
            pool.post(
                [&]
                {
                    std::unique_lock lock(m);
                    ++done;
                });
        {
            std::unique_lock lock(m);
            open = true;
            cv.notify_all();
            // Workers get there without anybody joining.
            if (c.flag()) cv.wait(lock, [&] { return here == threads; });
        }
        pool.join();
        VP_EQ(c, done, static_cast<int>(threads + extra), "join", "tasks completed by the join");
    }
    if (threads >= 2 && rounds >= 2) c.nontrivial();
}

// Several threads post to one pool and join it.
void posters(vp::Case &c)
{
    const size_t threads = c.range(1, 5), n_posters = c.range(2, 4);
    VP_NOTE(c, threads << " threads, " << n_posters << " posters\n");
    std::vector<std::vector<std::vector<Task>>> all(n_posters);
    for (auto &p : all)
    {
        p.resize(c.len(1, 5));
        for (auto &b : p)
            for (size_t n = c.len(0, 12); n; --n) b.push_back(gen(c, 1));
    }
    std::vector<std::string> errors(n_posters);
    {
        ex::ThreadPool pool(threads);
        std::vector<std::thread> ts;
        for (size_t i = 0; i < n_posters; ++i)
            ts.emplace_back(
                [&, i]
                {
                    for (auto &b : all[i])
                    {
                        for (auto &t : b) pool.post([&pool, &t] { run_task(pool, t); });
                        pool.join();
                        if (errors[i].empty()) errors[i] = wrong(b);
                    }
                });
        for (auto &t : ts) t.join();
    }
    for (auto &e : errors) VP_CHECK(c, e.empty(), "join", "after a poster's join: " << e);
    size_t total = 0;
    for (auto &p : all)
        for (auto &b : p) total += count(b);
    if (threads >= 2 && total >= 6) c.nontrivial();
}

// Several executors on one set of threads: each waits for its own tasks.
void executors(vp::Case &c)
{
    const size_t threads = c.range(1, 5), n = c.range(1, 3);
    VP_NOTE(c, threads << " threads, " << n << " executors\n");
    ex::ThreadPoolContext context(threads);
    std::vector<std::vector<Task>> all(n);
    size_t total = 0;
    {
        std::vector<std::unique_ptr<ex::ThreadPoolExecutor>> es;
        for (size_t i = 0; i < n; ++i) es.push_back(std::make_unique<ex::ThreadPoolExecutor>(context));
        for (size_t i = 0; i < n; ++i) VP_CHECK(c, &es[i]->context() == &context, "context", "context of executor " << i);
        for (auto &v : all) v.reserve(200);
        std::vector<size_t> joined(n);
        const size_t ops = c.len(1, 40);
        for (size_t op = 0; op < ops; ++op)
        {
            const size_t i = c.draw(n);
            if (c.chance(1, 5))
            {
                VP_NOTE(c, "join executor " << i << "\n");
                es[i]->join();
                const auto w = wrong(all[i]);
                VP_CHECK(c, w.empty(), "join", "after the join of executor " << i << ": " << w);
                continue;
            }
            for (size_t k = c.range(1, 4); k && all[i].size() < 200; --k)
            {
                all[i].push_back({static_cast<unsigned>(c.weighted({6, 2, 1, 1})), {}, 0});
                Task *t = &all[i].back();
                boost::asio::post(*es[i], [t] { work(t->kind); ++t->runs; });
                ++total;
            }
            if (c.chance(1, 10))
            {
                VP_NOTE(c, "replace executor " << i << "\n");
                es[i] = std::make_unique<ex::ThreadPoolExecutor>(context);  // the old one waits for its tasks
                const auto w = wrong(all[i]);
                VP_CHECK(c, w.empty(), "destroy", "after the destruction of executor " << i << ": " << w);
            }
        }
    }
    for (auto &v : all)
    {
        const auto w = wrong(v);
        VP_CHECK(c, w.empty(), "destroy", "after all executors were destroyed: " << w);
    }
    if (threads >= 2 && total >= 6) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C19",
        {
            {"history", "1-6 threads, up to 12 batches of up to 30 tasks that may post others, joined or not; non-trivial: at least 2 threads and 5 tasks", history, 6000},
            {"together", "1-6 threads, up to 6 rounds of as many tasks that wait for each other or for all to be posted; non-trivial: at least 2 threads and 2 rounds", together, 4000, 1, 15},
            {"posters", "1-5 threads, 2-4 other threads that post and join; non-trivial: at least 2 threads and 6 tasks", posters, 3000},
            {"executors", "1-5 threads shared by 1-3 executors, up to 40 operations; non-trivial: at least 2 threads and 6 tasks", executors, 4000},
        },
        {}, {"tasks do not throw: an exception in a task ends the process", "schedules are those the operating system happens to choose"});
}
