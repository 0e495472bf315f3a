#include "poolhist.hpp"
#include <new>
using namespace pool;

// The blocks of a pool are arrays: they are taken from one place, end to end, so that the end of a block is the beginning of
// another one, of the same pool or not. Everything else allocates as usual.
namespace arena
{
	bool on = false;
	bool down = false;
	constexpr std::size_t Size = 1 << 20;
	alignas(4096) unsigned char memory[Size];
	std::size_t low = 0, high = Size;
	struct Freed { void* ptr; std::size_t size; };
	Freed freed[512];
	std::size_t freedCount = 0;

	void reset(bool fromTheEnd) { on = true; down = fromTheEnd; low = 0; high = Size; freedCount = 0; }
	bool owns(void* p) { return p >= memory && p < memory + Size; }

	// the size is kept beside, not in front of the block
	struct Taken { void* ptr; std::size_t size; };
	Taken taken[4096];
	std::size_t takenCount = 0;

	void* get(std::size_t size, std::size_t alignment)
	{
		for (std::size_t i = 0; i < freedCount; ++i)
			if (freed[i].size == size && reinterpret_cast<std::uintptr_t>(freed[i].ptr) % alignment == 0)
			{
				void* p = freed[i].ptr;
				freed[i] = freed[--freedCount];
				return p;
			}
		void* p;
		if (down)
		{
			high = (high - size) / alignment * alignment;
			p = memory + high;
		}
		else
		{
			low = (low + alignment - 1) / alignment * alignment;
			p = memory + low;
			low += size;
		}
		if (low > high || takenCount == 4096)
			std::abort();
		taken[takenCount++] = { p, size };
		return p;
	}
	void release(void* p)
	{
		for (std::size_t i = 0; i < takenCount; ++i)
			if (taken[i].ptr == p && freedCount < 512)
			{
				freed[freedCount++] = { p, taken[i].size };
				return;
			}
	}
}

void* operator new[](std::size_t size) { return arena::on ? arena::get(size, 8) : ::operator new(size); }
void* operator new[](std::size_t size, std::align_val_t a) { return arena::on ? arena::get(size, static_cast<std::size_t>(a)) : ::operator new(size, a); }
void operator delete[](void* p) noexcept { if (arena::owns(p)) arena::release(p); else ::operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { if (arena::owns(p)) arena::release(p); else ::operator delete(p); }
void operator delete[](void* p, std::align_val_t a) noexcept { if (arena::owns(p)) arena::release(p); else ::operator delete(p, a); }
void operator delete[](void* p, std::size_t, std::align_val_t a) noexcept { if (arena::owns(p)) arena::release(p); else ::operator delete(p, a); }

namespace
{
	template<typename T, std::size_t A> void adjacent(pbt::Case& c)
	{
		struct Off { ~Off() { arena::on = false; arena::takenCount = 0; } } off;
		arena::takenCount = 0;
		arena::reset(c.coin());
		LOG("blocks are end to end, " << (arena::down ? "each one before the previous one" : "each one after the previous one"));
		history<T, A>(c);
	}
}
PBT_TARGET("MemoryPool<pair of int>, adjacent blocks", 30000, &adjacent<Pair, alignof(Pair)>)
PBT_TARGET("MemoryPool<pair of int, aligned on 16>, adjacent blocks", 20000, &adjacent<Pair, 16>)
PBT_TARGET("MemoryPool<over-aligned>, adjacent blocks", 15000, &adjacent<Wide, alignof(Wide)>)
