// Models of the out-of-line C++ and C library code, used by the symbolic executor only (native replay uses the real libraries).
#include "sym.h"
#include <stdexcept>
#include <exception>
#include <system_error>
#include <new>
#include <typeinfo>
#include <functional>
#include <memory>
#include <string>
#include <map>
#include <list>
#include <thread>
#include <condition_variable>
#include <mutex>
#include <chrono>
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <pthread.h>
#include <random>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>

extern "C" {
int symx_thread_new(void (*fn)(void *), void *arg);
void symx_thread_switch(int tid);
int symx_thread_self(void);
int be_thread_new(void (*fn)(void *), void *arg) { return symx_thread_new(fn, arg); }
void be_thread_switch(int tid) { symx_thread_switch(tid); }
int be_thread_self(void) { return symx_thread_self(); }
void be_thread_park(void) { sym_unsupported("scheduled a finished thread"); }
}

// ------------------------------------------------------------------ exceptions
namespace std {
	exception::~exception() noexcept {}
	const char *exception::what() const noexcept { return "std::exception"; }
	bad_exception::~bad_exception() noexcept {}
	const char *bad_exception::what() const noexcept { return "bad_exception"; }
	bad_alloc::~bad_alloc() noexcept {}
	const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {}
	const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {}
	const char *bad_cast::what() const noexcept { return "bad_cast"; }
	bad_typeid::~bad_typeid() noexcept {}
	const char *bad_typeid::what() const noexcept { return "bad_typeid"; }
	bad_function_call::~bad_function_call() noexcept {}
	const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
	bad_weak_ptr::~bad_weak_ptr() noexcept {}
	const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

	static const char *dupstr(const char *p, size_t n) { char *q = (char *)malloc(n + 1); memcpy(q, p, n); q[n] = 0; return q; }
	__cow_string::__cow_string() { _M_p = ""; }
	__cow_string::__cow_string(const std::string &s) { _M_p = dupstr(s.data(), s.size()); }
	__cow_string::__cow_string(const char *p, size_t n) { _M_p = dupstr(p, n); }
	__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
	__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
	__cow_string::~__cow_string() {}
	__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
	__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

#define EXN(T, B) \
	T::T(const string &s) : B(s) {} \
	T::T(const char *s) : B(s) {} \
	T::~T() noexcept {}
	logic_error::logic_error(const string &s) : _M_msg(s) {}
	logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
	logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
	logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
	logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error::~logic_error() noexcept {}
	const char *logic_error::what() const noexcept { return _M_msg._M_p; }
	runtime_error::runtime_error(const string &s) : _M_msg(s) {}
	runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
	runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
	runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
	runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
	runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
	runtime_error::~runtime_error() noexcept {}
	const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
	EXN(out_of_range, logic_error)
	EXN(invalid_argument, logic_error)
	EXN(length_error, logic_error)
	EXN(domain_error, logic_error)
	EXN(range_error, runtime_error)
	EXN(overflow_error, runtime_error)
	EXN(underflow_error, runtime_error)
	system_error::~system_error() noexcept {}

	inline namespace _V2 {
		error_category::~error_category() noexcept {}
		error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
		bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
		bool error_category::equivalent(const error_code &c, int i) const noexcept { return c.category() == *this && c.value() == i; }
		__cow_string error_category::_M_message(int) const { return __cow_string("", 0); }
		struct rt_category : error_category {
			const char *name() const noexcept override { return "rt"; }
			string message(int) const override { return "error"; }
		};
		static rt_category *cats[2];
		static rt_category &getcat(int i) { if (!cats[i]) cats[i] = new rt_category; return *cats[i]; }
		const error_category &system_category() noexcept { return getcat(0); }
		const error_category &generic_category() noexcept { return getcat(1); }
	}

	void __throw_bad_exception() { throw bad_exception(); }
	void __throw_bad_alloc() { throw bad_alloc(); }
	void __throw_bad_array_new_length() { throw bad_array_new_length(); }
	void __throw_bad_cast() { throw bad_cast(); }
	void __throw_bad_typeid() { throw bad_typeid(); }
	void __throw_logic_error(const char *s) { throw logic_error(s); }
	void __throw_domain_error(const char *s) { throw domain_error(s); }
	void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
	void __throw_length_error(const char *s) { throw length_error(s); }
	void __throw_out_of_range(const char *s) { throw out_of_range(s); }
	void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
	void __throw_runtime_error(const char *s) { throw runtime_error(s); }
	void __throw_range_error(const char *s) { throw range_error(s); }
	void __throw_overflow_error(const char *s) { throw overflow_error(s); }
	void __throw_underflow_error(const char *s) { throw underflow_error(s); }
	void __throw_bad_function_call() { throw bad_function_call(); }
	void __throw_system_error(int e) { throw system_error(error_code(e, system_category())); }

}

// ------------------------------------------------------------------ ordered containers
namespace std {
	_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
		if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_right) { x = y; y = y->_M_parent; }
		if (x->_M_right != y) x = y;
		return x;
	}
	const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
	_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
		if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;   // header
		if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_left) { x = y; y = y->_M_parent; }
		return y;
	}
	const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
	// an unbalanced tree has the same order behaviour
	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
		x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
		h._M_color = _S_red;
		if (left) {
			p->_M_left = x;
			if (p == &h) { h._M_parent = x; h._M_right = x; }
			else if (p == h._M_left) h._M_left = x;
		} else {
			p->_M_right = x;
			if (p == h._M_right) h._M_right = x;
		}
	}
	static void repl(_Rb_tree_node_base *u, _Rb_tree_node_base *v, _Rb_tree_node_base &h) {
		if (h._M_parent == u) h._M_parent = v;
		else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
		else u->_M_parent->_M_right = v;
		if (v) v->_M_parent = u->_M_parent;
	}
	_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
		if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
		if (h._M_right == z) { if (h._M_parent == z && !z->_M_left) h._M_right = &h; else h._M_right = _Rb_tree_decrement(z); }
		if (!z->_M_left) repl(z, z->_M_right, h);
		else if (!z->_M_right) repl(z, z->_M_left, h);
		else {
			_Rb_tree_node_base *y = z->_M_right;
			while (y->_M_left) y = y->_M_left;
			if (y->_M_parent != z) { repl(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
			repl(z, y, h);
			y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
		}
		if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
		return z;
	}
	namespace __detail {
		void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
		void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
			if (this == l) return;
			l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
			_List_node_base *t = this->_M_prev;
			this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
		}
		void _List_node_base::_M_reverse() noexcept {
			_List_node_base *t = this;
			do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
		}
		void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
			bool xe = x._M_next == &x, ye = y._M_next == &y;
			_List_node_base X = x, Y = y;
			if (ye) x._M_next = x._M_prev = &x; else { x = Y; x._M_next->_M_prev = &x; x._M_prev->_M_next = &x; }
			if (xe) y._M_next = y._M_prev = &y; else { y = X; y._M_next->_M_prev = &y; y._M_prev->_M_next = &y; }
		}
	}
	size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
		size_t h = seed;
		for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)p)[i];
		return h;
	}
}

// ------------------------------------------------------------------ threads
namespace std {
	thread::_State::~_State() {}
	static void *thread_tramp(void *p) {
		thread::_State *s = (thread::_State *)p;
		s->_M_run();
		delete s;
		return 0;
	}
	void thread::_M_start_thread(_State_ptr s, void (*)()) {
		pthread_t t;
		pthread_create(&t, 0, thread_tramp, s.release());
		_M_id = id(t);
	}
	void thread::join() { if (_M_id == id()) __throw_system_error(EINVAL); pthread_join(_M_id._M_thread, 0); _M_id = id(); }
	void thread::detach() { if (_M_id == id()) __throw_system_error(EINVAL); pthread_detach(_M_id._M_thread); _M_id = id(); }
	unsigned int thread::hardware_concurrency() noexcept { return 4; }
	condition_variable::condition_variable() noexcept {}
	condition_variable::~condition_variable() noexcept { pthread_cond_destroy(native_handle()); }
	void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
	void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
	void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
	namespace chrono { inline namespace _V2 {
		__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000000000)); }
		__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000)); }
	} }
	namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { } }
}
namespace std { namespace __exception_ptr {
	// exception_ptr: identity only
	exception_ptr::exception_ptr(void *p) noexcept : _M_exception_object(p) {}
	void exception_ptr::_M_release() noexcept {}
	void exception_ptr::_M_addref() noexcept {}
} }
extern "C" void *symx_current_exception();
namespace std {
	exception_ptr current_exception() noexcept { __exception_ptr::exception_ptr p; *(void **)&p = symx_current_exception(); return p; }
}

namespace std {
	void random_device::_M_init(const std::string &) {}
	void random_device::_M_fini() {}
	random_device::result_type random_device::_M_getval() { return 12345; }
}

template class std::__cxx11::basic_string<char>;
