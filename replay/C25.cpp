// qt
#include "pools.h"
#include <QtCore/QCoreApplication>
#include <QtCore/QThread>
#include <QtCore/QThreadPool>
#include "xdispatch/backend_qt.h"
using P = queue_priority;
static QCoreApplication& app()
{
    static int argc = 1;
    static char name[] = "replay";
    static char* argv[] = { name, nullptr };
    static auto* a = new QCoreApplication(argc, argv);
    return *a;
}
struct keeper
{
    std::shared_ptr<int> token = std::make_shared<int>(0);
};
TEST(pool_once)
{
    app();
    QThreadPool pool;
    pool.setMaxThreadCount(1 + rnd(4));
    const int n = 1 + rnd(60);
    std::vector<std::atomic<int>> runs(n);
    auto token = std::make_shared<int>(0);
    std::atomic<bool> foreign{ false };
    {
        auto q = qt5::create_parallel_queue("q", &pool);
        CHECK(q.label() == "q");
        for (int i = 0; i < n; ++i) {
            q.async([&runs, &foreign, token, i] {
                if (!naive::ithreadpool::current()) {
                    foreign = true;
                }
                ++runs[i];
            });
        }
    } // dropped while operations are pending
    for (auto& r : runs) {
        CHECK(eventually([&] { return r == 1; }));
    }
    CHECK(eventually([&] { return token.use_count() == 1; }));
    CHECK(pool.waitForDone(15000));
    for (auto& r : runs) {
        CHECK(r == 1);
    }
    CHECK(!foreign);
}
TEST(pool_priority)
{
    app();
    QThreadPool pool;
    pool.setMaxThreadCount(1);
    const P ps[] = { P::BACKGROUND, P::UTILITY, P::DEFAULT, P::USER_INITIATED, P::USER_INTERACTIVE };
    const int rank[] = { 0, 1, 1, 2, 3 };
    std::vector<queue> qs;
    for (P p : ps) {
        qs.push_back(qt5::create_parallel_queue("q", &pool, p));
    }
    std::atomic<bool> go{ false }, started{ false };
    qs[0].async([&] {
        started = true;
        eventually([&] { return go.load(); });
    });
    CHECK(eventually([&] { return started.load(); }));
    std::mutex m;
    std::vector<int> order;
    const int n = 20;
    for (int i = 0; i < n; ++i) {
        const int k = rnd(5);
        qs[k].async([&, k] {
            std::lock_guard<std::mutex> l(m);
            order.push_back(rank[k]);
        });
    }
    go = true;
    CHECK(pool.waitForDone(15000));
    CHECK(order.size() == size_t(n));
    for (int i = 1; i < n; ++i) {
        CHECK(order[i - 1] >= order[i]);
    }
}
TEST(pool_blocking)
{
    app();
    QThreadPool pool;
    pool.setMaxThreadCount(1);
    auto q = qt5::create_parallel_queue("q", &pool);
    std::atomic<int> n{ 0 };
    std::atomic<bool> done{ false };
    const bool grp = rnd(2);
    auto body = [&] {
        if (grp) {
            group g;
            g.async([&] { ++n; }, q);
            g.async([&] { ++n; }, q);
            g.async([&] { ++n; }, q);
            CHECK(g.wait(ms(30000)));
        } else {
            q.apply(3, [&](size_t) { ++n; });
        }
        done = true;
    };
    q.async(body);
    CHECK(eventually([&] { return done.load(); }, 30000));
    CHECK(n == 3);
    CHECK(pool.waitForDone(15000));
    // the slots are taken back afterwards
    std::atomic<int> now{ 0 }, top{ 0 };
    for (int i = 0; i < 6; ++i) {
        q.async([&] {
            int k = ++now;
            int t = top;
            while (k > t && !top.compare_exchange_weak(t, k)) {
            }
            usleep(300);
            --now;
        });
    }
    CHECK(pool.waitForDone(15000));
    CHECK(top == 1);
}
TEST(thread_serial)
{
    app();
    QThread t;
    const bool late = rnd(2);
    if (!late) {
        t.start();
    }
    const int n = 1 + rnd(40);
    std::mutex m;
    std::vector<int> order;
    std::atomic<bool> wrong{ false };
    std::atomic<int> count{ 0 };
    auto token = std::make_shared<int>(0);
    {
        auto q = qt5::create_serial_queue("s", &t);
        CHECK(q.label() == "s");
        for (int i = 0; i < n; ++i) {
            q.async([&, token, i] {
                if (QThread::currentThread() != &t) {
                    wrong = true;
                }
                std::lock_guard<std::mutex> l(m);
                order.push_back(i);
                ++count;
            });
        }
        if (late) {
            t.start();
        }
        if (rnd(2)) {
            CHECK(eventually([&] { return count == n; }));
        }
    }
    CHECK(eventually([&] { return count == n; }));
    CHECK(eventually([&] { return token.use_count() == 1; }));
    sleep_ms(1);
    t.quit();
    CHECK(t.wait(15000));
    CHECK(!wrong);
    CHECK(order.size() == size_t(n));
    for (int i = 0; i < n; ++i) {
        CHECK(order[i] == i);
    }
}
TEST(thread_two_queues)
{
    app();
    QThread t;
    t.start();
    auto a = qt5::create_serial_queue("a", &t), b = qt5::create_serial_queue("b", &t);
    std::atomic<int> na{ 0 }, nb{ 0 };
    std::atomic<bool> busy{ false }, wrong{ false };
    const int n = 1 + rnd(30);
    for (int i = 0; i < n; ++i) {
        for (int k = 0; k < 2; ++k) {
            (k ? a : b).async([&, i, k] {
                if (busy.exchange(true)) {
                    wrong = true;
                }
                std::atomic<int>& c = k ? na : nb;
                if (c != i) {
                    wrong = true;
                }
                ++c;
                busy = false;
            });
        }
    }
    CHECK(eventually([&] { return na == n && nb == n; }));
    CHECK(!wrong);
    t.quit();
    CHECK(t.wait(15000));
    sleep_ms(2);
}
TEST(main_queue_app)
{
    app();
    const auto main_thread = QThread::currentThread();
    std::unique_ptr<queue> mq;
    std::thread([&] { mq.reset(new queue(main_queue())); }).join();
    auto& q = *mq;
    CHECK(q == main_queue());
    std::atomic<bool> ran{ false }, right{ false };
    std::thread([&] {
        q.async([&] {
            right = QThread::currentThread() == main_thread;
            ran = true;
            QCoreApplication::quit();
        });
    }).join();
    CHECK(!ran);
    exec();
    CHECK(ran && right);
}
struct slot_object : QObject
{
    std::atomic<int> n{ 0 };
    void on(int) { ++n; }
};
TEST(connections)
{
    app();
    signal<void(int)> s, z;
    auto pool = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("q", pool);
    auto* o = new slot_object;
    auto* child = new slot_object;
    child->setParent(o);
    slot_object other;
    int lam = 0;
    // the order decides whose manager is created first
    const bool first = rnd(2);
    if (first) {
        qt5::connect(s, child, &slot_object::on, q);
    }
    qt5::connect(s, o, &slot_object::on, q);
    qt5::connect(s, o, [&lam](int) { ++lam; }, q);
    qt5::connect(z, o, &slot_object::on, q);
    if (!first) {
        qt5::connect(s, child, &slot_object::on, q);
    }
    qt5::connect(s, &other, &slot_object::on, q);
    s(1);
    z(1);
    pool->run_all();
    CHECK(o->n == 2 && child->n == 1 && other.n == 1 && lam == 1);
    CHECK(o->findChildren<QObject*>(QString(), Qt::FindDirectChildrenOnly).size() == 2);
    if (rnd(2)) {
        qt5::disconnect(s, o);
        s(1);
        z(1);
        pool->run_all();
        CHECK(o->n == 3 && child->n == 2 && other.n == 2 && lam == 1);
        qt5::disconnect(s, &other);
        s(1);
        pool->run_all();
        CHECK(other.n == 2 && child->n == 3);
        if (rnd(2)) {
            qt5::connect(s, &other, &slot_object::on, q);
            s(1);
            pool->run_all();
            CHECK(other.n == 3);
        }
    }
    const int was = lam, had = other.n;
    if (rnd(2)) {
        delete child;
        const int k = o->n;
        s(1);
        z(1);
        pool->run_all();
        CHECK(o->n > k);
    }
    const int was2 = lam, had2 = other.n;
    (void)was;
    (void)had;
    delete o; // ends every connection bound to it
    s(1);
    z(1);
    pool->run_all();
    CHECK(lam == was2 && other.n >= had2);
}
TEST(connect_options)
{
    app();
    signal<void(int)> s;
    auto p1 = std::make_shared<hand_pool>(), p2 = std::make_shared<hand_pool>();
    auto q1 = naive::create_serial_queue("q1", p1), q2 = naive::create_serial_queue("q2", p2);
    slot_object a, b;
    qt5::connect(s, &a, &slot_object::on, q1, notification_mode::batch_updates);
    qt5::connect(s, &b, [&b](int) { ++b.n; }, q2, notification_mode::batch_updates);
    s(1);
    s(2);
    s(3);
    CHECK(p1->size() == 1 && p2->size() == 1);
    p1->run_all();
    p2->run_all();
    CHECK(a.n == 1 && b.n == 1);
    slot_object c;
    qt5::connect(s, &c, &slot_object::on, q1);
    s(1);
    s(2);
    p1->run_all();
    CHECK(c.n == 2);
    p2->run_all();
}
TEST(connect_many)
{
    app();
    // several threads, each with objects of its own
    signal<void(int)> s;
    auto pool = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("q", pool);
    std::vector<std::thread> ts;
    for (int i = 0; i < 3; ++i) {
        ts.emplace_back([&] {
            for (int k = 0; k < 10; ++k) {
                slot_object o;
                qt5::connect(s, &o, &slot_object::on, q);
                qt5::connect(s, &o, &slot_object::on, q);
                if (o.findChildren<QObject*>().size() != 1) {
                    fail("one manager per object");
                }
                if (rnd(2)) {
                    qt5::disconnect(s, &o);
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    s(1);
    CHECK(pool->size() <= 1);
    pool->run_all();
}
