// C26: job queues and event channels deliver each item exactly once.
#include <pthread.h>

#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

#include <vrs/helpers/JobQueue.h>
#include <vrs/os/Event.h>
#include <vrs/os/Semaphore.h>
#include <vrs/os/Time.h>

#include "pbt.h"

using std::string;
using std::vector;
using vrs::JobQueue;
using vrs::JobQueueWithThread;
using vrs::os::EventChannel;

// Counts the threads which wait on a condition with a time limit. The mutex is locked when the wait starts, so that anyone who sees the count and then
// locks the mutex acts while the thread is really waiting.
static std::atomic<int> gWaiting{0};
extern "C" {
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  gWaiting++;
  int r = __real_pthread_cond_clockwait(c, m, k, t);
  gWaiting--;
  return r;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  gWaiting++;
  int r = __real_pthread_cond_timedwait(c, m, t);
  gWaiting--;
  return r;
}
}

namespace {

using Clk = std::chrono::steady_clock;
double since(Clk::time_point t) {
  return std::chrono::duration<double>(Clk::now() - t).count();
}

/// more than any scheduling delay, less than the waits which are interrupted
constexpr double kLong = 60;
constexpr double kPrompt = 20;

void noise(unsigned kind) {
  switch (kind % 6) {
    case 0:
      break;
    case 1:
    case 2:
      std::this_thread::yield();
      break;
    case 3:
      std::this_thread::sleep_for(std::chrono::microseconds(10));
      break;
    case 4:
      std::this_thread::sleep_for(std::chrono::microseconds(200));
      break;
    default: {
      volatile unsigned k = kind % 3000;
      while (k > 0) {
        k = k - 1;
      }
      break;
    }
  }
}

bool waiters(int count) {
  auto start = Clk::now();
  while (gWaiting.load() != count) {
    if (since(start) > 2) {
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(20));
  }
  return true;
}

} // namespace

PBT_TEST(
    queueModel,
    200000,
    4000000,
    "sequences of sends (copied, moved), receives of one or all jobs with or without waiting, cancels with or without clean-up, resets and ends, against a list "
    "model; non-trivial: a cancel or an end with jobs queued; distinct by history") {
  JobQueue<string> q;
  std::deque<string> model;
  bool ended = false, nontrivial = false;
  std::ostringstream log;
  size_t count = 1 + s.size(40);
  int sent = 0;
  uint64_t h = 1;
  for (size_t k = 0; k < count; k++) {
    size_t op = s.weighted({10, 4, 3, 3, 2, 2, 1, 1, 1});
    string out = "untouched";
    switch (op) {
      case 0: {
        string job = "job " + std::to_string(sent++) + (s.flip() ? string() : string(s.below(40), 'x'));
        log << " send";
        h = pbt::mix64(h ^ job.size());
        model.push_back(job);
        if (s.flip()) {
          q.sendJob(job);
          REQUIRE_EQ(job, model.back());
        } else {
          q.sendJob(std::move(job));
        }
        break;
      }
      case 1: {
        log << " get";
        bool got = q.getJob(out);
        REQUIRE_EQ_MSG(got, !model.empty(), log.str());
        if (got) {
          REQUIRE_EQ_MSG(out, model.front(), log.str());
          model.pop_front();
        } else {
          REQUIRE_EQ(out, "untouched");
        }
        break;
      }
      case 2: {
        // waiting for a job
        size_t how = s.below(5);
        log << " wait" << how;
        bool mayWait = how >= 2;
        if (how == 4 && model.empty() && !ended) {
          break; // would wait forever
        }
        bool expected = !model.empty() && !(mayWait && ended);
        auto start = Clk::now();
        bool got = how == 0 ? q.waitForJob(out, s.pick<double, 3>({0., -1., -1e9}))
            : how == 1      ? q.waitForJobMs(out, s.pick<int64_t, 3>({0, -1, INT64_MIN}))
            : how == 2      ? q.waitForJob(out, expected || ended ? kLong : 0.001)
            : how == 3      ? q.waitForJobMs(out, expected || ended ? (int64_t)kLong * 1000 : 1)
                            : q.waitForJob(out);
        REQUIRE_MSG(since(start) < kPrompt, log.str());
        if (mayWait && ended && !model.empty()) {
          // Once the queue is ended, waiting for a job stops: either the jobs left are still provided, or not.
          expected = got;
        }
        REQUIRE_EQ_MSG(got, expected, log.str());
        if (got) {
          REQUIRE_EQ_MSG(out, model.front(), log.str());
          model.pop_front();
        } else {
          REQUIRE_EQ(out, "untouched");
          if (!ended && (how == 2 || how == 3)) {
            REQUIRE_MSG(since(start) >= 0.001, log.str());
          }
        }
        break;
      }
      case 3: {
        std::deque<string> jobs;
        if (s.flip()) {
          jobs = {"old", "jobs"};
        }
        size_t how = s.below(4);
        log << " all" << how;
        bool expected = !model.empty();
        auto start = Clk::now();
        bool got = how == 0 ? q.waitForJobs(jobs, s.pick<double, 2>({0., -1.}))
            : how == 1      ? q.waitForJobsMs(jobs, s.pick<int64_t, 3>({0, -1, INT64_MIN}))
            : how == 2      ? q.waitForJobs(jobs, expected || ended ? kLong : 0.001)
                            : q.waitForJobsMs(jobs, expected || ended ? (int64_t)kLong * 1000 : 1);
        REQUIRE_MSG(since(start) < kPrompt, log.str());
        REQUIRE_EQ_MSG(got, expected, log.str());
        REQUIRE_EQ_MSG(jobs.size(), model.size(), log.str());
        REQUIRE_MSG(jobs == model, log.str());
        model.clear();
        if (!got && !ended && how >= 2) {
          REQUIRE_MSG(since(start) >= 0.001, log.str());
        }
        break;
      }
      case 4: {
        size_t modulo = 1 + s.below(3), rest = s.below(modulo);
        bool cleanup = s.flip();
        log << " cancel" << rest << "/" << modulo;
        std::multiset<string> cleaned, expected;
        std::deque<string> left;
        for (auto& j : model) {
          if (j.size() % modulo == rest) {
            expected.insert(j);
          } else {
            left.push_back(j);
          }
        }
        nontrivial = nontrivial || (!expected.empty() && !left.empty());
        auto selector = [&](const string& j) { return j.size() % modulo == rest; };
        if (cleanup) {
          q.cancelQueuedJobs(selector, [&](const string& j) { cleaned.insert(j); });
          REQUIRE_EQ_MSG(cleaned.size(), expected.size(), log.str());
          REQUIRE_MSG(cleaned == expected, log.str() << ": other jobs were cleaned up than those cancelled");
        } else {
          q.cancelQueuedJobs(selector);
        }
        model = left;
        break;
      }
      case 5:
        log << " cancelAll";
        q.cancelAllQueuedJobs();
        model.clear();
        break;
      case 6:
        log << " reset";
        q.reset();
        model.clear();
        ended = false;
        break;
      case 7: {
        bool clear = s.flip();
        log << " end" << clear;
        nontrivial = nontrivial || !model.empty();
        if (clear) {
          s.flip() ? q.endQueue() : q.endQueue(true);
          model.clear();
        } else {
          q.endQueue(false);
        }
        ended = true;
        break;
      }
      default:
        log << " wake";
        q.wakeAll();
        break;
    }
    h = pbt::mix64(h * 31 + op);
    REQUIRE_EQ_MSG(q.getQueueSize(), model.size(), log.str());
    REQUIRE_EQ_MSG(q.hasEnded(), ended, log.str());
  }
  std::deque<string> rest;
  q.waitForJobsMs(rest, 0);
  REQUIRE_MSG(rest == model, log.str());
  c.note(log.str());
  if (nontrivial) {
    c.nontrivial(h);
  }
}

namespace {
struct Job {
  int sender{-1};
  int number{-1};
};
} // namespace

PBT_RACY_TEST(
    queueThreads,
    1500,
    25000,
    "senders, receivers (of every kind of wait) and cancelers on threads of their own, with schedule noise, until the queue is ended or all is received: every "
    "job is received or cancelled exactly once, in order; waits end promptly; non-trivial: 2 senders or more; distinct by plan") {
  size_t senders = 1 + s.below(4), receivers = 1 + s.below(4);
  vector<int> jobs(senders);
  int total = 0;
  for (int& n : jobs) {
    n = (int)s.size(60);
    total += n;
  }
  bool copied = s.flip(), cancels = s.chance(1, 3), endEarly = s.chance(1, 4), clear = s.flip(), endWithJobs = s.flip();
  vector<unsigned> kinds(receivers);
  for (auto& k : kinds) {
    k = (unsigned)s.below(6);
  }
  uint64_t seed = s.u64();
  std::ostringstream what;
  what << senders << " senders, " << total << " jobs, " << receivers << " receivers, copied " << copied << " cancels " << cancels << " endEarly " << endEarly << " clear "
       << clear << " kinds";
  for (auto k : kinds) {
    what << " " << k;
  }
  c.note(what.str());
  using Ptr = std::shared_ptr<Job>;
  JobQueue<Ptr> q;
  std::atomic<int> received{0}, cancelled{0}, sending{(int)senders};
  std::mutex m;
  vector<Job> cleaned;
  vector<vector<Job>> got(receivers);
  std::atomic<bool> go{false}, badOut{false};
  vector<std::thread> sendThreads, receiveThreads;
  std::atomic<int> lateWaits{0};
  for (size_t k = 0; k < receivers; k++) {
    receiveThreads.emplace_back([&, k] {
      pbt::Prng p{seed + k};
      while (!go) {
        std::this_thread::yield();
      }
      for (;;) {
        Ptr job;
        std::deque<Ptr> many;
        bool ok = false;
        auto start = Clk::now();
        switch (kinds[k]) {
          case 0:
            ok = q.waitForJob(job);
            break;
          case 1:
            ok = q.waitForJob(job, kLong);
            break;
          case 2:
            ok = q.waitForJobMs(job, 1 + (int64_t)(p.next() % 3));
            break;
          case 3:
            ok = q.getJob(job);
            break;
          case 4:
            ok = q.waitForJobsMs(many, (int64_t)kLong * 1000);
            break;
          default:
            ok = q.waitForJobs(many, 0.001 * (double)(p.next() % 3));
            break;
        }
        if (since(start) > kPrompt) {
          lateWaits++;
        }
        if (ok == (job == nullptr && many.empty())) {
          badOut = true;
        }
        if (job) {
          many.push_back(job);
        }
        for (auto& j : many) {
          if (!j) {
            badOut = true;
            continue;
          }
          got[k].push_back(*j);
          received++;
        }
        if (!ok) {
          if (q.hasEnded()) {
            break;
          }
          if (kinds[k] == 3) {
            noise((unsigned)(p.next() % 5 + 1));
          }
        }
        if (p.next() % 4 == 0) {
          noise((unsigned)p.next());
        }
      }
    });
  }
  for (size_t k = 0; k < senders; k++) {
    sendThreads.emplace_back([&, k] {
      pbt::Prng p{seed * 3 + k};
      while (!go) {
        std::this_thread::yield();
      }
      for (int n = 0; n < jobs[k]; n++) {
        auto job = std::make_shared<Job>();
        job->sender = (int)k;
        job->number = n;
        if (copied) {
          q.sendJob(job);
        } else {
          q.sendJob(std::move(job));
        }
        if (p.next() % 3 == 0) {
          noise((unsigned)p.next());
        }
      }
      sending--;
    });
  }
  std::thread canceler([&] {
    pbt::Prng p{seed * 7};
    while (cancels && sending > 0) {
      int rest = (int)(p.next() % 3);
      q.cancelQueuedJobs(
          [&](const Ptr& j) { return !j || j->number % 3 == rest; },
          [&](const Ptr& j) {
            std::unique_lock<std::mutex> lock(m);
            cleaned.push_back(j ? *j : Job());
            cancelled++;
          });
      noise((unsigned)p.next() | 3);
    }
  });
  go = true;
  if (endEarly) {
    noise((unsigned)pbt::Prng{seed}.next());
    q.endQueue(clear);
  }
  for (auto& t : sendThreads) {
    t.join();
  }
  canceler.join();
  std::deque<Ptr> left;
  auto start = Clk::now();
  if (!endEarly) {
    if (!endWithJobs) {
      // everything is received, as long as the queue isn't ended
      while (received + cancelled < total && since(start) < kPrompt) {
        std::this_thread::sleep_for(std::chrono::microseconds(50));
      }
      REQUIRE_EQ_MSG(received + cancelled, total, what.str());
      REQUIRE_EQ_MSG(q.getQueueSize(), (size_t)0, what.str());
    }
    q.endQueue(clear);
  }
  start = Clk::now();
  for (auto& t : receiveThreads) {
    t.join();
  }
  REQUIRE_MSG(since(start) < kPrompt && lateWaits == 0, what.str() << ": waits did not end with the queue");
  q.waitForJobsMs(left, 0);
  REQUIRE_MSG(!badOut, what.str() << ": a wait's status doesn't match the job provided");
  // exactly once, in order
  std::set<std::pair<int, int>> seen;
  auto once = [&](const Job& j) { REQUIRE_MSG(j.sender >= 0 && seen.insert({j.sender, j.number}).second, what.str() << ": job " << j.sender << "/" << j.number << " seen twice"); };
  vector<vector<int>> all(senders);
  for (auto& g : got) {
    vector<int> last(senders, -1);
    for (auto& j : g) {
      once(j);
      REQUIRE_MSG(j.number > last[j.sender], what.str() << ": jobs out of order");
      last[j.sender] = j.number;
    }
  }
  for (auto& j : cleaned) {
    once(j);
  }
  vector<int> last(senders, -1);
  for (auto& j : left) {
    once(*j);
    REQUIRE_MSG(j->number > last[j->sender], what.str() << ": jobs out of order");
    last[j->sender] = j->number;
  }
  for (auto& j : seen) {
    REQUIRE_MSG(j.second < jobs[j.first], what.str());
  }
  if (!clear || (!endEarly && !endWithJobs)) {
    REQUIRE_EQ_MSG(seen.size(), (size_t)total, what.str() << ": jobs lost");
  }
  if (senders > 1) {
    c.nontrivial(pbt::hashStr(what.str(), seed));
  }
}

PBT_RACY_TEST(
    queueWakeUps,
    1000,
    15000,
    "receivers which all wait, then jobs sent one by one or at once, or the end of the queue: each job wakes up a receiver promptly; queues with a thread of "
    "their own; non-trivial: 2 receivers or more; distinct by plan") {
  size_t receivers = 1 + s.below(5), sent = s.below(7);
  bool move = s.flip(), batch = s.flip(), withThread = s.chance(1, 3), clear = s.flip();
  size_t kind = s.below(3);
  std::ostringstream what;
  what << receivers << " receivers, " << sent << " jobs, kind " << kind << " batch " << batch << " withThread " << withThread;
  c.note(what.str());
  if (withThread) {
    std::atomic<int> received{0}, started{0};
    auto q = std::make_unique<JobQueueWithThread<int>>();
    auto body = [&, p = q.get()](int n) {
      started += n;
      int job = 0;
      while (p->waitForJob(job)) {
        received += job;
      }
    };
    bool never = s.chance(1, 6);
    if (!never) {
      if (s.flip()) {
        q->startThread(body, 1);
      } else {
        q->startThreadIfNeeded(body, 1);
      }
      q->startThreadIfNeeded(body, 100);
    }
    for (size_t k = 0; k < sent; k++) {
      q->sendJob(1);
    }
    auto start = Clk::now();
    while (!never && received < (int)sent && since(start) < kPrompt) {
      std::this_thread::sleep_for(std::chrono::microseconds(30));
    }
    start = Clk::now();
    if (s.flip()) {
      q->endThread();
      REQUIRE_EQ(q->hasEnded(), !never);
    }
    q.reset();
    REQUIRE_MSG(since(start) < kPrompt, what.str() << ": ending was slow");
    REQUIRE_EQ(received.load(), never ? 0 : (int)sent);
    REQUIRE_EQ(started.load(), never ? 0 : 1);
    c.label("with thread");
    c.nontrivial(pbt::hashStr(what.str(), s.u64()));
    return;
  }
  JobQueue<int> q;
  std::atomic<int> got{0}, ended{0};
  vector<std::thread> threads;
  gWaiting = 0;
  for (size_t k = 0; k < receivers; k++) {
    threads.emplace_back([&] {
      for (;;) {
        int job = -1;
        std::deque<int> jobs;
        bool ok = kind == 0 ? q.waitForJob(job, kLong) : kind == 1 ? q.waitForJob(job) : q.waitForJobsMs(jobs, (int64_t)kLong * 1000);
        if (ok) {
          got += kind == 2 ? (int)jobs.size() : 1;
        } else if (q.hasEnded()) {
          ended++;
          return;
        }
      }
    });
  }
  bool settled = waiters((int)receivers);
  auto start = Clk::now();
  auto wait = [&](int n) {
    while (got < n && since(start) < kPrompt) {
      std::this_thread::sleep_for(std::chrono::microseconds(20));
    }
    return got == n;
  };
  int expected = 0;
  bool ok = true;
  for (size_t k = 0; k < sent && ok; k++) {
    int job = 3;
    if (move) {
      q.sendJob(std::move(job));
    } else {
      q.sendJob(const_cast<const int&>(job));
    }
    expected++;
    if (!batch) {
      ok = wait(expected);
    }
  }
  ok = ok && wait(expected);
  double took = since(start);
  start = Clk::now();
  q.endQueue(clear);
  for (auto& t : threads) {
    t.join();
  }
  REQUIRE_MSG(ok && took < kPrompt, what.str() << ": jobs received late: " << got << " of " << expected);
  REQUIRE_MSG(since(start) < kPrompt && ended == (int)receivers, what.str() << ": waits did not end with the queue");
  c.label(settled ? "settled" : "not settled");
  if (receivers > 1) {
    c.nontrivial(pbt::hashStr(what.str(), s.u64()));
  }
}

PBT_TEST(
    channelModel,
    200000,
    4000000,
    "sequences of dispatches and waits without listeners, with look-back windows, against a model of the past events; non-trivial: an event found by looking "
    "back after missing others; distinct by history") {
  auto mode = s.flip() ? EventChannel::NotificationMode::UNICAST : EventChannel::NotificationMode::BROADCAST;
  string name = s.text(20);
  EventChannel ch(name, mode);
  REQUIRE_EQ(ch.getName(), name);
  REQUIRE(ch.getNotificationMode() == mode);
  int64_t past = 0, value = 0;
  double before = 0, after = 0;
  bool any = false, nontrivial = false;
  std::ostringstream log;
  size_t count = 1 + s.size(25);
  uint64_t h = (uint64_t)mode;
  for (size_t k = 0; k < count; k++) {
    if (s.flip()) {
      value = s.flip() ? 0 : (int64_t)s.interesting(64);
      log << " dispatch " << value;
      before = vrs::os::getTimestampSec();
      if (value == 0 && s.flip()) {
        ch.dispatchEvent();
      } else {
        ch.dispatchEvent(value);
      }
      after = vrs::os::getTimestampSec();
      past++;
      any = true;
    } else {
      size_t how = s.below(5);
      double timeout = how == 4 ? 0.0002 : 0;
      double lookBack = how == 0 ? 0 : how == 1 ? -1 : 1e9;
      log << " wait " << how;
      EventChannel::Event e{};
      auto start = Clk::now();
      auto st = ch.waitForEvent(e, timeout, lookBack);
      if (past > 0 && lookBack > 0) {
        REQUIRE_MSG(st == EventChannel::Status::SUCCESS, log.str());
        REQUIRE_EQ_MSG(e.value, value, log.str());
        REQUIRE_EQ_MSG(e.numMissedEvents, past - 1, log.str());
        REQUIRE_MSG(e.timestampSec >= before && e.timestampSec <= after, log.str());
        nontrivial = nontrivial || past > 1;
      } else {
        REQUIRE_MSG(st == EventChannel::Status::TIMEOUT, log.str());
        REQUIRE_MSG(since(start) >= timeout * 0.99, log.str());
      }
      past = 0;
      h = pbt::mix64(h + how);
    }
    h = pbt::mix64(h * 31 + (uint64_t)value);
    REQUIRE_EQ_MSG(ch.getNumEventsSinceLastWait(), past, log.str());
  }
  (void)any;
  c.note(log.str());
  if (nontrivial) {
    c.nontrivial(h);
  }
}

PBT_RACY_TEST(
    channelListeners,
    1500,
    25000,
    "rounds of listeners which all wait, then one dispatch: all of them, or exactly one, get its value, the others time out or get the following ones; "
    "non-trivial: 2 listeners or more; distinct by plan") {
  bool unicast = s.flip();
  EventChannel ch("channel", unicast ? EventChannel::NotificationMode::UNICAST : EventChannel::NotificationMode::BROADCAST);
  size_t listeners = 1 + s.below(5), rounds = 1 + s.below(3);
  std::ostringstream what;
  what << (unicast ? "unicast " : "broadcast ") << listeners << " listeners";
  gWaiting = 0;
  for (size_t r = 0; r < rounds; r++) {
    struct Got {
      EventChannel::Status st{};
      EventChannel::Event e{};
      double start{}, end{};
    };
    vector<Got> got(listeners);
    std::atomic<int> done{0};
    vector<std::thread> threads;
    int64_t value = (int64_t)s.u64() | 1, missed = (int64_t)s.below(3);
    what << " round " << value << " after " << missed;
    for (int64_t k = 0; k < missed; k++) {
      ch.dispatchEvent(k);
    }
    for (size_t k = 0; k < listeners; k++) {
      threads.emplace_back([&, k] {
        got[k].start = vrs::os::getTimestampSec();
        got[k].st = ch.waitForEvent(got[k].e, kLong, k == 0 ? 0 : -1);
        got[k].end = vrs::os::getTimestampSec();
        done++;
      });
    }
    bool settled = waiters((int)listeners);
    if (!settled) {
      // can't be sure of who waits: end them all, one way or another
      auto start = Clk::now();
      while (done < (int)listeners && since(start) < kPrompt) {
        ch.dispatchEvent(value);
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
      }
      for (auto& t : threads) {
        t.join();
      }
      c.label("not settled");
      throw pbt::Discard{};
    }
    REQUIRE_EQ_MSG(done.load(), 0, what.str() << ": listeners did not wait");
    REQUIRE_EQ_MSG(ch.getNumEventsSinceLastWait(), (int64_t)0, what.str());
    auto start = Clk::now();
    double before = vrs::os::getTimestampSec();
    ch.dispatchEvent(value);
    double after = vrs::os::getTimestampSec();
    int64_t totalMissed = 0;
    auto waitDone = [&](int n) {
      while (done < n && since(start) < kPrompt) {
        std::this_thread::sleep_for(std::chrono::microseconds(20));
      }
      return (int)done == n;
    };
    bool ok = true;
    std::multiset<int64_t> values{value};
    if (unicast) {
      ok = waitDone(1);
      for (size_t k = 1; k < listeners && ok; k++) {
        // the others still wait
        ok = waiters((int)(listeners - k)) && done == (int)k;
        ch.dispatchEvent(value + (int64_t)k);
        values.insert(value + (int64_t)k);
        ok = ok && waitDone((int)k + 1);
      }
    } else {
      ok = waitDone((int)listeners);
    }
    double took = since(start);
    for (int k = 0; !ok && done < (int)listeners && k < 20000; k++) {
      ch.dispatchEvent(0);
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    for (auto& t : threads) {
      t.join();
    }
    REQUIRE_MSG(ok && took < kPrompt, what.str() << ": not all listeners got the event");
    std::multiset<int64_t> found;
    for (auto& g : got) {
      REQUIRE_MSG(g.st == EventChannel::Status::SUCCESS, what.str());
      found.insert(g.e.value);
      totalMissed += g.e.numMissedEvents;
      if (!unicast) {
        REQUIRE_EQ_MSG(g.e.value, value, what.str());
        REQUIRE_MSG(g.e.timestampSec >= before && g.e.timestampSec <= after, what.str());
      }
    }
    if (unicast) {
      REQUIRE_MSG(found == values, what.str() << ": an event was lost or received twice");
    }
    REQUIRE_EQ_MSG(totalMissed, missed, what.str());
    REQUIRE_EQ_MSG(ch.getNumEventsSinceLastWait(), (int64_t)0, what.str());
    // nobody listens anymore
    EventChannel::Event e{};
    REQUIRE(ch.waitForEvent(e, 0, 1e9) == EventChannel::Status::TIMEOUT);
  }
  c.note(what.str());
  if (listeners > 1) {
    c.nontrivial(pbt::hashStr(what.str()));
  }
}

PBT_RACY_TEST(
    channelThreads,
    1500,
    25000,
    "free running dispatchers and listeners with time limits and look-back windows, then the channel's destruction with listeners waiting: every event received "
    "was dispatched before, no unicast event is received twice, no listener gets a broadcast event twice, time limits hold; non-trivial: 2 listeners or more; distinct by plan") {
  bool unicast = s.flip(), destroy = s.chance(1, 3);
  auto ch = std::make_unique<EventChannel>("channel", unicast ? EventChannel::NotificationMode::UNICAST : EventChannel::NotificationMode::BROADCAST);
  size_t dispatchers = 1 + s.below(3), listeners = 1 + s.below(4);
  int events = (int)s.below(60), waits = 1 + (int)s.below(30);
  uint64_t seed = s.u64();
  double lookBack = s.pick<double, 3>({0, 0.0005, 1e9});
  std::ostringstream what;
  what << (unicast ? "unicast " : "broadcast ") << listeners << " listeners, " << dispatchers << " dispatchers, " << events << " events, " << waits << " waits, look-back "
       << lookBack << " destroy " << destroy;
  c.note(what.str());
  struct Got {
    EventChannel::Status st{};
    EventChannel::Event e{};
    int64_t lastPossible{};
    double start{}, end{}, timeout{};
  };
  vector<vector<Got>> got(listeners);
  vector<std::thread> threads;
  std::atomic<int64_t> next{1};
  std::atomic<bool> go{false};
  for (size_t k = 0; k < dispatchers; k++) {
    threads.emplace_back([&, k] {
      pbt::Prng p{seed + k};
      while (!go) {
        std::this_thread::yield();
      }
      for (int n = 0; n < events; n++) {
        ch->dispatchEvent(next++);
        noise((unsigned)p.next());
      }
    });
  }
  for (size_t k = 0; k < listeners; k++) {
    threads.emplace_back([&, k] {
      pbt::Prng p{seed * 5 + k};
      while (!go) {
        std::this_thread::yield();
      }
      for (int n = 0; n < waits; n++) {
        Got g;
        g.timeout = 0.0001 * (double)(p.next() % 4);
        g.start = vrs::os::getTimestampSec();
        g.st = ch->waitForEvent(g.e, g.timeout, lookBack);
        g.end = vrs::os::getTimestampSec();
        g.lastPossible = next;
        got[k].push_back(g);
        if (p.next() % 2 == 0) {
          noise((unsigned)p.next());
        }
      }
    });
  }
  go = true;
  auto start = Clk::now();
  for (auto& t : threads) {
    t.join();
  }
  REQUIRE_MSG(since(start) < kPrompt, what.str() << ": threads were stuck");
  std::set<int64_t> unique;
  int64_t missed = ch->getNumEventsSinceLastWait(), successes = 0;
  for (auto& l : got) {
    std::set<int64_t> mine;
    for (auto& g : l) {
      REQUIRE_MSG(g.st == EventChannel::Status::SUCCESS || g.st == EventChannel::Status::TIMEOUT, what.str());
      REQUIRE_MSG(g.e.numMissedEvents >= 0, what.str());
      missed += g.e.numMissedEvents;
      if (g.st == EventChannel::Status::SUCCESS) {
        successes++;
        REQUIRE_MSG(g.e.value > 0 && g.e.value < g.lastPossible, what.str() << ": value " << g.e.value << " wasn't dispatched yet");
        REQUIRE_MSG(mine.insert(g.e.value).second, what.str() << ": a listener received event " << g.e.value << " twice");
        REQUIRE_MSG(!unicast || unique.insert(g.e.value).second, what.str() << ": event " << g.e.value << " was received twice");
        REQUIRE_MSG(g.e.timestampSec <= g.end && g.e.timestampSec > g.start - lookBack - 1, what.str());
      } else {
        REQUIRE_MSG(g.end - g.start >= g.timeout * 0.99 - 1e-6, what.str() << ": a wait ended before its time limit");
      }
    }
  }
  if (unicast) {
    REQUIRE_MSG(missed + successes <= events * (int64_t)dispatchers, what.str() << ": more events received or missed than dispatched");
  } else {
    REQUIRE_MSG(missed <= events * (int64_t)dispatchers, what.str() << ": more events missed than dispatched");
  }
  if (destroy) {
    // listeners which wait are told
    gWaiting = 0;
    vector<std::thread> last;
    vector<EventChannel::Status> sts(listeners);
    for (size_t k = 0; k < listeners; k++) {
      last.emplace_back([&, k, p = ch.get()] {
        EventChannel::Event e{};
        sts[k] = p->waitForEvent(e, kLong, 0);
      });
    }
    bool settled = waiters((int)listeners);
    for (int k = 0; !settled && k < 100; k++) {
      // make sure that nobody is about to enter
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    start = Clk::now();
    if (settled) {
      ch.reset();
    } else {
      for (int k = 0; k < 2000; k++) {
        ch->dispatchEvent();
        std::this_thread::sleep_for(std::chrono::microseconds(100));
      }
    }
    for (auto& t : last) {
      t.join();
    }
    REQUIRE_MSG(since(start) < kPrompt, what.str() << ": listeners were stuck");
    for (auto st : sts) {
      REQUIRE_MSG(!settled || st == EventChannel::Status::FAILURE, what.str());
    }
    c.label("destroyed");
  }
  if (listeners > 1) {
    c.nontrivial(pbt::hashStr(what.str(), seed));
  }
}

PBT_RACY_TEST(
    semaphores,
    1000,
    15000,
    "threads which post and wait, with or without time limits: as many waits succeed as there are posts, time limits hold; non-trivial: 2 waiting threads or more; "
    "distinct by plan") {
  unsigned initial = (unsigned)s.below(4);
  vrs::os::Semaphore sem(initial);
  size_t waiting = 1 + s.below(4);
  unsigned posts = (unsigned)s.below(30), each = (unsigned)s.below(20);
  uint64_t seed = s.u64();
  bool timed = s.flip();
  std::ostringstream what;
  what << "initial " << initial << " posts " << posts << " threads " << waiting << " each " << each << " timed " << timed;
  c.note(what.str());
  if (!timed) {
    posts = (unsigned)waiting * each;
  }
  std::atomic<unsigned> successes{0};
  std::atomic<bool> early{false}, late{false};
  vector<std::thread> threads;
  for (size_t k = 0; k < waiting; k++) {
    threads.emplace_back([&, k] {
      pbt::Prng p{seed + k};
      for (unsigned n = 0; n < each; n++) {
        if (timed) {
          double limit = 0.0005 * (double)(p.next() % 4);
          auto start = Clk::now();
          if (sem.timedWait(limit)) {
            successes++;
          } else if (since(start) < limit * 0.9 - 1e-5) {
            early = true;
          }
          if (since(start) > kPrompt) {
            late = true;
          }
        } else {
          sem.wait();
          successes++;
        }
      }
    });
  }
  pbt::Prng p{seed};
  for (unsigned k = 0; k < posts; k++) {
    noise((unsigned)p.next());
    sem.post();
  }
  for (auto& t : threads) {
    t.join();
  }
  REQUIRE_MSG(!early, what.str() << ": a wait ended before its time limit");
  REQUIRE_MSG(!late, what.str() << ": a wait lasted much longer than its time limit");
  unsigned left = 0;
  while (sem.timedWait(s.pick<double, 2>({0, -1}))) {
    left++;
  }
  REQUIRE_EQ_MSG(successes + left, initial + posts, what.str());
  // a post ends a wait promptly
  if (s.chance(1, 4)) {
    std::thread t([&] { sem.post(); });
    auto start = Clk::now();
    bool ok = sem.timedWait(kLong);
    t.join();
    REQUIRE_MSG(ok && since(start) < kPrompt, what.str());
  }
  if (waiting > 1) {
    c.nontrivial(pbt::hashStr(what.str(), seed));
  }
}
