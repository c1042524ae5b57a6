// Linearizability of a finished concurrent history: is there an order of its operations, consistent
// with the order in which they really took place, that the sequential model explains?
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>

namespace lin {

struct Span {
    std::size_t begin, end;    // event indices
};

// apply(model, i) returns whether operation i, with the answer it gave, is possible in this state of
// the model, and changes the state.
template <class Model, class Apply>
bool
search(std::vector<Span> const& ops, std::uint64_t done, Model const& m, Apply const& apply)
{
    if (done == (1ULL << ops.size()) - 1)
        return true;
    for (std::size_t i = 0; i < ops.size(); i++) {
        if (done >> i & 1)
            continue;
        bool first = true;
        for (std::size_t j = 0; j < ops.size(); j++)
            if (j != i && !(done >> j & 1) && ops[j].end < ops[i].begin)
                first = false;
        if (!first)
            continue;
        Model n = m;
        if (apply(n, i) && search(ops, done | 1ULL << i, n, apply))
            return true;
    }
    return false;
}

template <class Model, class Apply>
bool
linearizable(std::vector<Span> const& ops, Model const& m, Apply const& apply)
{
    return search(ops, 0, m, apply);
}

}    // namespace lin
