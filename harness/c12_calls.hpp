#pragma once
#include <cstddef>
#include <memory>
struct Job
{
    size_t in = 0, out = 0, temp = 0, elem = 4; // bytes
    bool one_way = false;
    virtual void run(void* o, const void* i, unsigned char* t, bool inv) const = 0;
    virtual ~Job() {}
};
// kind: 0 complex, 1/2 real forward/inverse, 3 cosine, 4 complex 2-D, 5/6 real 2-D forward/inverse
std::unique_ptr<Job> make_job(int kind, bool f64, int a, int b);
