// P16: random histories of a dynamic_buffer against a byte-string model; every
// prepared region is written in full so that AddressSanitizer sees any overrun.
#include "vh.hpp"
#include <deque>
#include <optional>

#include <fitoria/core/bytes.hpp>
#include <fitoria/core/dynamic_buffer.hpp>

using fitoria::dynamic_buffer;

namespace {

template <class C>
void history(vh::rng& r, const char* kind)
{
  using B = dynamic_buffer<C>;
  std::size_t limit = std::size_t(-1);
  std::string model;
  auto make = [&]() -> B {
    switch (r.below(4)) {
    case 0: limit = std::size_t(-1); model.clear(); return B();
    case 1: {
      model = r.bytes(r.len(200));
      limit = std::size_t(-1);
      C c(model.size(), {});
      if (!model.empty()) std::memcpy(c.data(), model.data(), model.size());
      return B(std::move(c));
    }
    default:
      limit = r.one_of<std::size_t>({ 0, 1, 2, 3, 8, 15, 16, 17, 64, 100, 1000, 4096 });
      model.clear();
      return B(limit);
    }
  };
  std::optional<B> b(make());
  std::string how = kind;
  how += " limit=" + std::to_string(long(limit)) + " ";
  std::size_t prepared = 0; // writable bytes of the last prepare not yet committed
  std::string wr;           // their content
  bool fresh = false;
  int steps = 10 + int(r.below(60));
  for (int s = 0; s < steps; ++s) {
    std::size_t cap = limit == std::size_t(-1) ? 300 : limit;
    switch (r.below(9)) {
    case 0:
    case 1:
    case 2: {
      std::size_t room = limit == std::size_t(-1) ? std::size_t(-1) : limit - model.size();
      std::size_t n = r.chance(1, 3) && room != std::size_t(-1) ? room // exact fit
          : r.chance(1, 10)                                         ? r.one_of<std::size_t>({ std::size_t(-1), std::size_t(-1) / 2 + 1,
                                                        limit == std::size_t(-1) ? std::size_t(-1) - model.size() : limit + 1, room == std::size_t(-1) ? room : room + 1 })
                                                                    : r.len(cap + 2);
      how += "prepare(" + std::to_string(n) + ") ";
      fresh = false;
      prepared = 0;
      try {
        auto w = b->prepare(n);
        bool ok = n <= (limit == std::size_t(-1) ? C().max_size() - model.size() : room);
        VH_CHECK(ok, "prepare:over-limit", how + " succeeded with " + std::to_string(model.size()) + " readable");
        VH_CHECK(w.size() == n, "prepare:size", how + " gave " + std::to_string(w.size()));
        if (w.size() && w.size() <= 100000) {
          wr = r.bytes(w.size());
          std::memcpy(w.data(), wr.data(), wr.size()); // ASan: region must be real memory
          auto d = b->data();
          if (d.size()) {
            auto *p = static_cast<const char*>(w.data()), *q = static_cast<const char*>(d.data());
            VH_CHECK(p >= q + d.size() || p + w.size() <= q, "prepare:overlap", how);
          }
        } else wr.clear();
        prepared = n;
        fresh = true;
        vh::count("prepared");
      } catch (const std::length_error&) {
        bool must = limit != std::size_t(-1) ? n > room : n > C().max_size() - model.size();
        VH_CHECK(must, "prepare:rejected", how + " threw with " + std::to_string(model.size()) + " readable");
        vh::count("over_limit");
      }
      break;
    }
    case 3:
    case 4:
    case 5: {
      if (!fresh) break;
      std::size_t n = r.chance(1, 4) ? prepared : r.chance(1, 10) ? r.one_of<std::size_t>({ prepared + 1, std::size_t(-1), prepared + 100000 }) : r.below(prepared + 1);
      how += "commit(" + std::to_string(n) + ") ";
      bool over = n > prepared;
      auto k = std::min(n, prepared);
      auto before = b->size();
      b->commit(n);
      if (over) {
        // clamped to what is writable; the storage may have more than was asked for
        VH_CHECK(b->size() - before >= k, "commit:clamp", how + " size " + std::to_string(b->size()));
        VH_CHECK(b->size() <= limit, "commit:beyond-limit", how);
        auto d = b->data();
        std::string got(static_cast<const char*>(d.data()), d.size()); // ASan: must be real memory
        VH_CHECK(got.substr(0, before) == model && got.substr(before, k) == wr.substr(0, k), "commit:content", how);
        model = got;
        fresh = false;
        vh::count("over_commit");
      } else {
        model += wr.substr(0, k);
        wr.erase(0, k);
        prepared -= k;
        vh::count("commit");
      }
      break;
    }
    case 6:
    case 7: {
      std::size_t n = r.chance(1, 3) ? model.size() : r.chance(1, 6) ? r.one_of<std::size_t>({ std::size_t(-1), std::size_t(-1) - 1, model.size() + 1 }) : r.below(model.size() + 2);
      how += "consume(" + std::to_string(n) + ") ";
      b->consume(n);
      model.erase(0, std::min(n, model.size()));
      fresh = false;
      vh::count(n > model.size() ? "over_consume" : "consume");
      break;
    }
    default:
      fresh = false;
      if (r.chance(1, 3)) {
        how += "move ";
        B c(std::move(*b));
        if (r.flip()) b.emplace(std::move(c));
        else *b = std::move(c);
      } else if (r.chance(1, 3)) {
        how += "copy ";
        B c(*b);
        *b = c;
      } else if (r.chance(1, 2)) {
        how += "release ";
        C c = b->release();
        VH_CHECK(c.size() == model.size() && (model.empty() || std::memcmp(c.data(), model.data(), model.size()) == 0), "release", how);
        vh::count("release");
        if (r.flip()) {
          // a released buffer is empty and usable again
          how += "reuse ";
          model.clear();
          VH_CHECK(b->size() == 0 && b->data().size() == 0, "release:not-empty", how);
        } else {
          b.emplace(make());
          how += "| limit=" + std::to_string(long(limit)) + " ";
        }
      }
    }
    VH_CHECK(b->size() == model.size(), "size", how + " -> " + std::to_string(b->size()) + " expected " + std::to_string(model.size()));
    auto d = b->cdata();
    auto d2 = std::as_const(*b).data();
    VH_CHECK(d.size() == model.size() && (model.empty() || std::memcmp(d.data(), model.data(), model.size()) == 0), "content", how);
    VH_CHECK(d2.size() == d.size() && d2.data() == d.data() && b->data().data() == d.data(), "content", how);
    VH_CHECK(b->capacity() >= b->size() && b->size() <= b->max_size(), "capacity", how);
    if (limit != std::size_t(-1)) VH_CHECK(b->max_size() == limit, "max_size", how);
    if (vh::st().per_key.size() > 0 && b->size() != model.size()) return;
  }
  vh::seen(how);
  vh::sample(how);
}

VH_SUITE("string", 12000, 400000) { history<std::string>(r, "string"); }
VH_SUITE("bytes", 12000, 400000) { history<fitoria::bytes>(r, "bytes"); }

} // namespace

int main(int argc, char** argv)
{
  for (auto* k : { "prepared", "over_limit", "commit", "over_commit", "consume", "over_consume", "release" }) vh::require(k, 300);
  return vh::main(argc, argv);
}
