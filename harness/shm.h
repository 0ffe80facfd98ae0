// a shared memory session in the modelled environment
#pragma once
#include <fairmq/TransportFactory.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/shmem/TransportFactory.h>
#include <fairmq/shmem/Message.h>
#include <fairmq/shmem/Socket.h>
#include <rt/rt.h>
#include <rt/rtzmq.h>
namespace shm {
namespace fs = fair::mq::shmem;
inline fair::mq::ProgOptions& options(size_t size, bool simple = false, uint16_t id = 0)
{
    auto& o = *new fair::mq::ProgOptions();
    o.SetProperty<std::string>("session", "s"); o.SetProperty<size_t>("shm-segment-size", size); o.SetProperty<uint16_t>("shm-segment-id", id);
    o.SetProperty<std::string>("shm-allocation", simple ? "simple_seq_fit" : "rbtree_best_fit"); o.SetProperty<uint64_t>("shmid", 0x1234);
    return o;
}
// free memory of a managed segment, seen through a mapping of its own
struct Seg
{
    std::unique_ptr<fs::RBTreeBestFitSegment> rb; std::unique_ptr<fs::SimpleSeqFitSegment> ss; size_t initial;
    Seg(bool simple = false, int id = 0)
    {
        std::string n = "fmq_00001234_m_" + std::to_string(id);
        if (simple) ss = std::make_unique<fs::SimpleSeqFitSegment>(boost::interprocess::open_only, n.c_str()); else rb = std::make_unique<fs::RBTreeBestFitSegment>(boost::interprocess::open_only, n.c_str());
        initial = free();
    }
    size_t free() const { return rb ? rb->get_free_memory() : ss->get_free_memory(); }
    size_t size() const { return rb ? rb->get_size() : ss->get_size(); }
    bool sane() const { return rb ? rb->check_sanity() : ss->check_sanity(); }
    bool inside(const void* p, size_t n) const { const char* b = (const char*)(rb ? rb->get_address() : ss->get_address()); return (const char*)p >= b && (const char*)p + n <= b + size(); }
};
}
