// instantiations of the thread pool
#include <nuSQuIDS/ThreadPool.h>
namespace vp{
struct Job{ int k; int operator()() const; };
struct VJob{ int k; void operator()() const; };
std::future<int> enq(ThreadPool& p, const Job& j){ return p.enqueue(j); }
std::future<void> enqv(ThreadPool& p, const VJob& j){ return p.enqueue(j); }
int add(int a,int b);
std::future<int> enqa(ThreadPool& p, int a, int b){ return p.enqueue(add,a,b); }
void make(ThreadPool* p, std::size_t n){ ::new(p) ThreadPool(n); }
void kill(ThreadPool& p){ p.~ThreadPool(); }






}
