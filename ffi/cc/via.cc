// The C calls, made through the C++ interface: handles are taken out of its objects and put back.
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#define private public
#include "ipmb.h"
#undef private

using E = ipmb::Error;
static int code(E e) {
    switch (e) {
    case E::kSuccess: return 0;
    case E::kTimeout: return -2;
    case E::kDecode: return -3;
    case E::kVersionMismatch: return -4;
    case E::kTokenMismatch: return -5;
    case E::kPermissionDenied: return -6;
    default: return -1;
    }
}
extern "C" {
int via_join(const char* id, const char* token, const char* label, bool affinity, uint32_t timeout, void** tx, void** rx) {
    ipmb::Label l;
    std::string all(label), e;
    for (size_t i = 0; i <= all.size(); i++) {
        if (i < all.size() && all[i] != ' ') { e += all[i]; continue; }
        if (!e.empty()) l.append(e);
        e.clear();
    }
    ipmb::Options o(id, std::move(l), token, affinity);
    auto [t, r, err] = ipmb::join(o, timeout);
    if (t.ptr_ && tx) *tx = (void*)t.ptr_.release();
    if (r.ptr_ && rx) *rx = (void*)r.ptr_.release();
    return code(err);
}
void* via_message(const char* to, bool multicast, uint32_t ttl, uint16_t format, const uint8_t* p, uint32_t n) {
    ipmb::Selector s(ipmb::LabelOp(to), multicast ? ipmb_ffi::SelectorMode::kMulticast : ipmb_ffi::SelectorMode::kUnicast, ttl);
    ipmb::Message m(s, format, p, n);
    return (void*)m.ptr_.release();
}
int via_send(void** tx, void* m) {
    ipmb::Sender s((ipmb_ffi::Sender)*tx);
    auto e = s.send(ipmb::Message((ipmb_ffi::Message)m));
    *tx = (void*)s.ptr_.release();
    return code(e);
}
int via_recv(void** rx, void** out, uint32_t timeout) {
    ipmb::Receiver r((ipmb_ffi::Receiver)*rx);
    auto [m, e] = r.recv(timeout);
    if (m.ptr_) *out = (void*)m.ptr_.release();
    *rx = (void*)r.ptr_.release();
    return code(e);
}
void via_payload(void** msg, uint16_t* f, const uint8_t** p, uint32_t* n) {
    ipmb::Message m((ipmb_ffi::Message)*msg);
    auto [f1, p1, n1, e] = m.bytes_data();
    *f = f1; *p = p1; *n = n1;
    *msg = (void*)m.ptr_.release();
}
}
