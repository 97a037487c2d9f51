// Interface of a field element as the library's own elements have it.
#define SIM_TOY_FIELD(Self)                                             \
    static Self zero() {                                                \
        return Self(0u);                                                \
    }                                                                   \
    static Self one() {                                                 \
        return Self(1u);                                                \
    }                                                                   \
    bool is_zero() const {                                              \
        fp();                                                           \
        return get() == Zp(0);                                          \
    }                                                                   \
    bool is_one() const {                                               \
        fp();                                                           \
        return get() == Zp(1);                                          \
    }                                                                   \
    Self squared() const {                                              \
        fp();                                                           \
        return Self(get() * get());                                     \
    }                                                                   \
    Self doubled() const {                                              \
        fp();                                                           \
        return Self(get() + get());                                     \
    }                                                                   \
    Self inversed() const {                                             \
        fp();                                                           \
        return Self(Zp(1) / get());                                     \
    }                                                                   \
    Self pow(uint64_t e) const {                                        \
        fp();                                                           \
        return Self(Zp::raw(Zp::pw(get().v, e)));                       \
    }                                                                   \
    friend Self operator+(const Self &a, const Self &b) {               \
        fp();                                                           \
        return Self(a.get() + b.get());                                 \
    }                                                                   \
    friend Self operator-(const Self &a, const Self &b) {               \
        fp();                                                           \
        return Self(a.get() - b.get());                                 \
    }                                                                   \
    friend Self operator*(const Self &a, const Self &b) {               \
        fp();                                                           \
        return Self(a.get() * b.get());                                 \
    }                                                                   \
    Self &operator+=(const Self &b) {                                   \
        fp();                                                           \
        set(get() + b.get());                                           \
        return *this;                                                   \
    }                                                                   \
    Self &operator-=(const Self &b) {                                   \
        fp();                                                           \
        set(get() - b.get());                                           \
        return *this;                                                   \
    }                                                                   \
    Self &operator*=(const Self &b) {                                   \
        fp();                                                           \
        set(get() * b.get());                                           \
        return *this;                                                   \
    }                                                                   \
    Self operator-() const {                                            \
        fp();                                                           \
        return Self(Zp(0) - get());                                     \
    }                                                                   \
    friend bool operator==(const Self &a, const Self &b) {              \
        fp();                                                           \
        return a.get() == b.get();                                      \
    }                                                                   \
    friend bool operator!=(const Self &a, const Self &b) {              \
        fp();                                                           \
        return !(a.get() == b.get());                                   \
    }
