// allocation failures while multi_type_matrix objects are copied
#include "mc.hpp"

#include <mdds/multi_type_matrix.hpp>

#include <optional>
#include <string>
#include <vector>

namespace {

using matrix = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;

matrix make(std::size_t rows, std::size_t cols, const std::vector<int>& types)
{
    matrix m(rows, cols);
    for (std::size_t i = 0; i < types.size(); ++i)
    {
        std::size_t r = i % rows, c = i / rows;
        switch (types[i])
        {
            case 1:
                m.set(r, c, 1.5 + i);
                break;
            case 2:
                m.set(r, c, (i & 1) == 0);
                break;
            case 3:
                m.set(r, c, "a string too long to be held inside the object " + std::to_string(i));
                break;
            case 4:
                m.set(r, c, int(i + 3));
                break;
        }
    }
    return m;
}

} // namespace

MC_SCENARIO(
    mtm_alloc, "every matrix of up to four cells and every pattern of types x copy construction and assignment x every allocation that fails",
    {"split", 2, 2, 2, 2}, {"cells", 5, 7, 4, 5})
{
    std::size_t cells = mc::param("cells");
    std::size_t rows = mc::choose(int(cells + 1)), cols = rows ? mc::choose(int(cells / rows + 1)) : 0;
    std::vector<int> types, dtypes;
    for (std::size_t i = 0; i < rows * cols; ++i)
        types.push_back(mc::choose(5));
    bool assign = mc::flip();
    int dest = assign ? mc::choose(3) : 0;
    if (dest == 1)
        dtypes = {3, 1};
    else if (dest == 2)
        dtypes = {4, 3, 3, 0, 2, 3};
    mc::transition();
    bool more = true, again = false;
    for (std::int64_t k = 0; more; ++k)
    {
        const std::int64_t base = mc::live_allocs();
        {
            matrix src = make(rows, cols, types), dst = make(2, dtypes.size() / 2, dtypes);
            const matrix src0 = make(rows, cols, types), dst0 = make(2, dtypes.size() / 2, dtypes);
            bool threw = false;
            std::optional<matrix> made;
            mc::arm_alloc_fault(k);
            try
            {
                if (assign)
                    dst = std::as_const(src);
                else
                    made.emplace(std::as_const(src));
            }
            catch (const std::bad_alloc&)
            {
                threw = true;
            }
            const std::int64_t n = mc::allocs_since_arm();
            mc::arm_alloc_fault(0);
            if (k)
            {
                MC_CHECK(threw == (n >= k), << "allocation " << k << " failing " << (threw ? ": throws" : ": the exception does not propagate"));
                more = threw;
            }
            MC_CHECK(src == src0, << "allocation " << k << " failing: the source changed");
            if (threw)
            {
                mc::count("failures");
                if (assign)
                {
                    // old or readable: whatever it is, size and content go together
                    auto s = dst.size();
                    MC_CHECK(dst == dst0 || dst == src0, << "allocation " << k << " failing: the destination is neither of both, " << s.row << "x" << s.column);
                    dst = std::as_const(src);
                }
                else
                {
                    MC_CHECK(!made, << "there is a new matrix");
                    made.emplace(std::as_const(src));
                }
            }
            MC_CHECK((assign ? dst : *made) == src0, << "the copy differs");
        }
        if (mc::live_allocs() != base && !again)
        {
            // what is set up once and kept does not recur: the same again
            again = true;
            more = true;
            --k;
            continue;
        }
        again = false;
        if (k)
            MC_CHECK(mc::live_allocs() == base, << "allocation " << k << " failing: " << mc::live_allocs() - base << " allocation(s) leaked");
    }
}
