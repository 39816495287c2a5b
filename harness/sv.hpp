// Opaque vector-of-sets: every set operation is a declared-only call.
#ifndef SV_HPP
#define SV_HPP
struct SV {
    long dummy;
    SV(); SV(const SV&); ~SV(); void operator=(const SV&);
    void resize(size_t n_set, size_t end);
    size_t n_set() const; size_t end() const; size_t number_elements(size_t i) const;
    bool is_element(size_t i, size_t e) const;
    void post_element(size_t i, size_t e); void process_post(size_t i);
    void add_element(size_t i, size_t e);
    void clear(size_t t);
    void assignment(size_t this_target, size_t other_value, const SV& other);
    void binary_union(size_t this_target, size_t this_left, size_t other_right, const SV& other);
    void binary_intersection(size_t this_target, size_t this_left, size_t other_right, const SV& other);
    void swap(SV& other);
    struct const_iterator { long d[4]; const_iterator(const SV& v, size_t i); const_iterator& operator++(); size_t operator*(); };
};
#endif
