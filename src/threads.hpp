// Helper threads that execute one command at a time for a scheduler.
#pragma once
#include "engine.hpp"
#include <atomic>
#include <functional>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

inline double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
inline void nap(long us) { timespec t{0, us * 1000}; nanosleep(&t, nullptr); }

struct Hand
{
    pthread_t id{}; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER;
    std::function<void()> job; bool has = false, quit = false; std::atomic<uint64_t> given{0}, finished{0};
    static void* main_(void* p) { ((Hand*)p)->loop(); return nullptr; }
    void loop()
    {
        for (;;)
        {
            pthread_mutex_lock(&m); while (!has && !quit) pthread_cond_wait(&c, &m);
            if (!has && quit) { pthread_mutex_unlock(&m); return; }
            std::function<void()> j; j.swap(job); has = false; pthread_mutex_unlock(&m);
            j(); finished.fetch_add(1);
        }
    }
    void start() { if (pthread_create(&id, nullptr, main_, this)) _exit(2); }
    void give(std::function<void()> f) { pthread_mutex_lock(&m); job = std::move(f); has = true; given.fetch_add(1); pthread_cond_signal(&c); pthread_mutex_unlock(&m); }
    bool idle() const { return finished.load() == given.load(); }
    // waits until the command has been executed; false after `s` seconds
    bool wait(double s = 10)
    {
        for (int i = 0; i < 2000; ++i) { if (idle()) return true; if (i > 50) sched_yield(); }
        double t0 = mono(); while (mono() - t0 < s) { if (idle()) return true; nap(50); }
        return idle();
    }
    bool run(std::function<void()> f, double s = 10) { give(std::move(f)); return wait(s); }
    void stop() { pthread_mutex_lock(&m); quit = true; pthread_cond_signal(&c); pthread_mutex_unlock(&m); pthread_join(id, nullptr); }
};
// persistent helpers of this process
inline Hand& hand(int i)
{
    static pid_t pid = 0; static std::vector<Hand*> hs;
    if (pid != getpid()) { pid = getpid(); hs.clear(); for (int k = 0; k < 5; ++k) { hs.push_back(new Hand); hs.back()->start(); } }
    return *hs[(size_t)i];
}
