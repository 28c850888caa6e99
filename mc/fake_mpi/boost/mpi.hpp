// A stand-in for boost::mpi: the same interface (of what a program of point to
// point messages needs), the messages go through the simulation in mc/lib/fmpi.
#ifndef BOOST_MPI_HPP
#define BOOST_MPI_HPP

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/optional.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/shared_ptr.hpp>
#include <functional>
#include <algorithm>
#include <cstdlib>
#include <deque>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

namespace fmpi
{
// operations of the calling rank
void initialize();
void finalize();
bool is_initialized();
bool is_finalized();
int rank();
int size();
void send(int dest, int tag, const std::string& type, const std::string& data);
int isend(int dest, int tag, const std::string& type, const std::string& data);
struct Message { int source, tag; std::string type, data; };
Message receive(int source, int tag);
int post(int source, int tag);
bool test(int request, Message* m);
Message wait(int request);
bool probe(int source, int tag, bool block, Message* m);
void barrier();
void abort(int code);
void wrong(const std::string& what); // misuse of MPI by the program

template <class T> std::string pack(const T& value)
{
    std::ostringstream o;
    {
        boost::archive::binary_oarchive a(o, boost::archive::no_header);
        a << value;
    }
    return o.str();
}
template <class T> void unpack(const Message& m, T& value)
{
    if (m.type != typeid(T).name())
        wrong("a message of type " + m.type + " from rank " + std::to_string(m.source) + " is received as " + typeid(T).name());
    std::istringstream i(m.data);
    boost::archive::binary_iarchive a(i, boost::archive::no_header);
    a >> value;
}
}

namespace boost
{
namespace mpi
{
const int any_source = -1;
const int any_tag = -1;

class exception : public std::runtime_error
{
public:
    explicit exception(const char* what) : std::runtime_error(what) {}
};

class status
{
public:
    status() : source_(0), tag_(0) {}
    explicit status(const fmpi::Message& m) : source_(m.source), tag_(m.tag) {}
    int source() const { return source_; }
    int tag() const { return tag_; }
    int error() const { return 0; }
    bool cancelled() const { return false; }
private:
    int source_, tag_;
};

class environment
{
public:
    explicit environment(bool = true) { fmpi::initialize(); }
    environment(int&, char**&, bool = true) { fmpi::initialize(); }
    ~environment() { fmpi::finalize(); }
    static void abort(int code) { fmpi::abort(code); }
    static bool initialized() { return fmpi::is_initialized(); }
    static bool finalized() { return fmpi::is_finalized(); }
    static std::string processor_name() { return "simulated"; }
    static int max_tag() { return 32767; }
private:
    environment(const environment&);
    environment& operator=(const environment&);
};

class request
{
    struct State
    {
        int id;
        bool done;
        std::function<void(const fmpi::Message&)> deliver; // empty: a send
        State() : id(-1), done(false) {}
    };
public:
    request() {}
    request(int id, const std::function<void(const fmpi::Message&)>& deliver) : s_(new State)
    {
        s_->id = id;
        s_->deliver = deliver;
    }
    status wait()
    {
        check();
        fmpi::Message m = fmpi::wait(s_->id);
        return finish(m);
    }
    boost::optional<status> test()
    {
        check();
        fmpi::Message m;
        if (!fmpi::test(s_->id, &m)) return boost::optional<status>();
        return finish(m);
    }
    bool active() const { return s_ && !s_->done; }
private:
    void check()
    {
        if (!s_) fmpi::wrong("an empty request is waited for");
        if (s_->done) fmpi::wrong("a request that was already completed is tested again");
    }
    status finish(const fmpi::Message& m)
    {
        s_->done = true;
        if (s_->deliver) s_->deliver(m);
        return status(m);
    }
    boost::shared_ptr<State> s_;
};

class communicator
{
public:
    communicator()
    {
        if (!fmpi::is_initialized() || fmpi::is_finalized()) fmpi::wrong("a communicator is made while MPI is not initialized");
    }
    int rank() const { return fmpi::rank(); }
    int size() const { return fmpi::size(); }
    operator bool() const { return true; }
    template <class T> void send(int dest, int tag, const T& value) const
    {
        fmpi::send(dest, tag, typeid(T).name(), fmpi::pack(value));
    }
    void send(int dest, int tag, const char* value) const { send(dest, tag, std::string(value)); }
    template <class T> void send(int dest, int tag, const T* values, int n) const
    {
        for (int i = 0; i < n; ++i) send(dest, tag, values[i]);
    }
    template <class T> status recv(int source, int tag, T& value) const
    {
        fmpi::Message m = fmpi::receive(source, tag);
        fmpi::unpack(m, value);
        return status(m);
    }
    template <class T> status recv(int source, int tag, T* values, int n) const
    {
        status s;
        for (int i = 0; i < n; ++i) s = recv(source, tag, values[i]);
        return s;
    }
    template <class T> request isend(int dest, int tag, const T& value) const
    {
        return request(fmpi::isend(dest, tag, typeid(T).name(), fmpi::pack(value)), std::function<void(const fmpi::Message&)>());
    }
    template <class T> request irecv(int source, int tag, T& value) const
    {
        T* p = &value;
        return request(fmpi::post(source, tag), [p](const fmpi::Message& m) { fmpi::unpack(m, *p); });
    }
    boost::optional<status> iprobe(int source = any_source, int tag = any_tag) const
    {
        fmpi::Message m;
        return fmpi::probe(source, tag, false, &m) ? boost::optional<status>(status(m)) : boost::optional<status>();
    }
    status probe(int source = any_source, int tag = any_tag) const
    {
        fmpi::Message m;
        fmpi::probe(source, tag, true, &m);
        return status(m);
    }
    void barrier() const { fmpi::barrier(); }
    void abort(int code) const { fmpi::abort(code); }
};

template <class Iterator> void wait_all(Iterator from, Iterator to)
{
    for (; from != to; ++from) if (from->active()) from->wait();
}
template <class Iterator> boost::optional<std::pair<status, Iterator> > test_any(Iterator from, Iterator to)
{
    for (; from != to; ++from)
        if (from->active())
        {
            boost::optional<status> s = from->test();
            if (s) return std::make_pair(*s, from);
        }
    return boost::optional<std::pair<status, Iterator> >();
}
}
}
#endif
