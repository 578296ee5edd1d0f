// Forces the instantiation of member templates (never executed).
#pragma once
namespace arch
{
template <class T> struct In { It_in<T> i; It_fw<T> f; Arg& a; T& v; const T& cv; };
}
// any element type
template <class C, class T> void use_seq(C& c, arch::In<T>& in)
{
    c.emplace(c.begin(), in.a); c.emplace(c.begin(), in.a, std::move(in.a)); c.emplace(c.begin()); c.emplace(c.begin(), std::move(in.v));
    c.emplace_back(in.a); c.emplace_back(in.a, std::move(in.a)); c.emplace_back(); c.emplace_back(std::move(in.v));
    erase_if(c, arch::P_pred(*(const arch::P_pred*)nullptr));
    (void)(c == c); (void)(c != c); (void)(c < c); (void)(c > c); (void)(c <= c); (void)(c >= c);
    swap(c, c);
}
// copyable element types
template <class C, class T> void use_seq_copy(C& c, arch::In<T>& in)
{
    C a(in.i, in.i); C b(in.f, in.f); 
    c.assign(in.i, in.i); c.assign(in.f, in.f);
    c.insert(c.begin(), in.i, in.i); c.insert(c.begin(), in.f, in.f);
    c.emplace(c.begin(), in.cv); c.emplace_back(in.cv);
    erase(c, in.cv);
}
template <class C, class T, class A> void use_seq_copy_alloc(C&, arch::In<T>& in, const A& al)
{
    C a(in.i, in.i, al); C b(in.f, in.f, al);
}

// move-only element types (explicit instantiation is not possible)
template <class C, class T> void use_seq_move(C& c, arch::In<T>& in)
{
    C a; C b(3); C d(std::move(c)); a = std::move(b); const C& k = c;
    c.assign(std::make_move_iterator(&in.v), std::make_move_iterator(&in.v)); C e(std::make_move_iterator(&in.v), std::make_move_iterator(&in.v));
    c.insert(c.begin(), std::make_move_iterator(&in.v), std::make_move_iterator(&in.v));
    c.insert(c.begin(), std::move(in.v)); c.push_back(std::move(in.v)); c.pop_back(); c.erase(c.begin()); c.erase(c.begin(), c.end()); c.clear(); c.resize(3); a.swap(c);
    c.begin(); c.end(); k.begin(); k.end(); c.size(); c.capacity(); c.nth(1); c.index_of(c.begin()); c.at(1); k.at(1); c[1]; c.front(); c.back(); c.empty();
}
template <class C> void use_data(C& c) { c.data(); }
template <class C, class T, class A> void use_seq_move_alloc(C& c, arch::In<T>& in, const A& al)
{
    C a(al); C b(3, al); C d(std::move(c), al); C e(std::make_move_iterator(&in.v), std::make_move_iterator(&in.v), al);
}
template <class C> void use_reserve(C& c) { c.reserve(3); }
template <class C, class T> void use_de(C& c, arch::In<T>& in)
{
    c.emplace_front(in.a); c.emplace_front(in.a, std::move(in.a)); c.emplace_front(); c.emplace_front(std::move(in.v));
}
template <class C, class T> void use_de_copy(C& c, arch::In<T>& in) { c.emplace_front(in.cv); }
template <class C, class T> void use_de_move(C& c, arch::In<T>& in)
{
    c.push_front(std::move(in.v)); c.pop_front(); c.resize_front(3); c.resize_back(3); c.reserve_front(3); c.reserve_back(3);
}

// associative containers
namespace arch { template <class K, class V> struct InK { It_in<V> i; It_fw<V> f; Arg& a; V& v; const V& cv; const K& ck; K& k; Het& h; const Het& ch; const E_mp& cm; E_mp& m; P_pred& p; }; }
template <class C, class IN> void use_set(C& c, IN& in)
{
    C a(in.i, in.i); C b(in.f, in.f);
    c.emplace(in.a); c.emplace(in.a, std::move(in.a)); c.emplace(std::move(in.v)); c.emplace(in.cv);
    c.emplace_hint(c.begin(), in.a); c.emplace_hint(c.begin(), std::move(in.v));
    c.insert(in.i, in.i); c.insert(in.f, in.f);
    erase_if(c, in.p);
    (void)(c == c); (void)(c != c); swap(c, c);
}
template <class C, class IN> void use_map(C& c, IN& in)
{
    C a(in.i, in.i); C b(in.f, in.f);
    c.emplace(); c.emplace(std::move(in.v)); c.emplace(in.cv); c.emplace(in.ck, in.cm); c.emplace(std::move(in.k), std::move(in.m)); c.emplace(in.a, std::move(in.a));
    c.emplace_hint(c.begin(), std::move(in.v)); c.emplace_hint(c.begin(), in.ck, std::move(in.m));
    c.insert(in.i, in.i); c.insert(in.f, in.f);
    erase_if(c, in.p);
    (void)(c == c); (void)(c != c); swap(c, c);
}
template <class C, class IN> void use_umap(C& c, IN& in)
{
    c.insert_or_assign(in.ck, in.cm); c.insert_or_assign(std::move(in.k), std::move(in.m)); c.insert_or_assign(c.begin(), in.ck, in.cm); c.insert_or_assign(c.begin(), std::move(in.k), std::move(in.m));
    c.try_emplace(in.ck); c.try_emplace(in.ck, in.cm); c.try_emplace(in.ck, std::move(in.m)); c.try_emplace(std::move(in.k), in.a, std::move(in.a)); c.try_emplace(c.begin(), in.ck, std::move(in.m)); c.try_emplace(c.begin(), std::move(in.k), in.a);
}
template <class C> void use_cmp(C& c) { (void)(c < c); (void)(c > c); (void)(c <= c); (void)(c >= c); }
template <class C, class IN> void use_tr(C& c, IN& in)
{
    const C& k = c; c.find(in.ch); k.find(in.ch); k.count(in.ch); k.contains(in.ch); c.erase(in.h);
}
template <class C, class IN> void use_tr_bounds(C& c, IN& in)
{
    const C& k = c; c.lower_bound(in.ch); k.lower_bound(in.ch); c.upper_bound(in.ch); k.upper_bound(in.ch);
}
template <class C, class IN> void use_tr_range(C& c, IN& in) { const C& k = c; c.equal_range(in.ch); k.equal_range(in.ch); }
template <class C, class IN> void use_tr_set(C& c, IN& in) { c.insert(in.h); c.insert(std::move(in.h)); c.insert(c.begin(), in.h); c.insert(c.begin(), std::move(in.h)); }
template <class C, class IN> void use_tr_umap(C& c, IN& in)
{
    const C& k = c; c.at(in.ch); k.at(in.ch); c[in.h]; c[std::move(in.h)];
    c.insert_or_assign(in.h, in.cm); c.insert_or_assign(c.begin(), std::move(in.h), in.cm); c.try_emplace(in.h, in.cm); c.try_emplace(c.begin(), std::move(in.h), in.a);
}
