#include "poolhist.hpp"
using namespace pool;
using obj::Opt; using obj::Tracked;
using Plain = Tracked<Opt::Copy>;
using Aligned = Tracked<Opt::Align>;
PBT_TARGET("lifetimes: MemoryPool<tracked>", 60000, &history<Plain>)
PBT_TARGET("lifetimes: MemoryPool<tracked over-aligned>", 30000, &history<Aligned>)
PBT_TARGET("lifetimes: MemoryPool<tracked, aligned on 32>", 40000, &history<Plain, 32>)
PBT_TARGET("lifetimes: large MemoryPool<tracked>", 900, &history<Plain, alignof(Plain), true, Scale::Large>)
PBT_TARGET("lifetimes and faults: MemoryPool<tracked>", 60000, &history<Plain, alignof(Plain), true>)

namespace
{
	// trees of nodes of one pool: constructors allocate the children, destructors free them
	struct Forest;

	struct Shape
	{
		int id;
		int throwAt = -1; // throws once that many children were built
		bool ghost = false; // its destructor allocates another node
		std::vector<Shape> children;
		std::size_t count() const { std::size_t n = 1; for (const Shape& s : children) n += s.count(); return n; }
		bool fails() const { if (throwAt >= 0) return true; for (const Shape& s : children) if (s.fails()) return true; return false; }
	};

	struct Node
	{
		Node(Forest& f, const Shape& s);
		Node(const Node&) = delete;
		~Node();

		Forest& forest;
		int id;
		int check;
		bool ghost;
		std::vector<std::size_t> children;
	};

	struct Forest
	{
		explicit Forest(pbt::Case& cc, std::size_t blockSize) : c(cc), pool(blockSize) {}

		pbt::Case& c;
		Nz::MemoryPool<Node> pool;
		std::map<int, const Node*> alive; // built and not destroyed yet
		std::vector<std::size_t> ghosts;
		int next = 1;

		Shape shape(unsigned depth, bool faults)
		{
			Shape s;
			s.id = next++;
			if (depth > 0)
				for (std::size_t i = 0, n = c.below(4); i < n; ++i)
					s.children.push_back(shape(depth - 1, faults));
			if (faults && c.chance(1, 6))
				s.throwAt = static_cast<int>(c.below(s.children.size() + 1));
			s.ghost = c.chance(1, 12);
			return s;
		}

		static std::string text(const Shape& s)
		{
			std::string t = std::to_string(s.id) + (s.ghost ? "g" : "") + (s.throwAt >= 0 ? "!" + std::to_string(s.throwAt) : "");
			if (!s.children.empty())
			{
				t += "(";
				for (const Shape& k : s.children) t += text(k) + " ";
				t.back() = ')';
			}
			return t;
		}

		void verify()
		{
			c.flush();
			CHECK_EQ(pool.GetAllocatedEntryCount(), alive.size(), "entries of the pool");
			CHECK_EQ(pool.size(), alive.size(), "entries of the pool");
			std::map<int, const Node*> seen;
			for (Node& n : pool)
			{
				CHECK(seen.emplace(n.id, &n).second, "node visited twice:", n.id);
				CHECK(n.check == ~n.id, "node overwritten:", n.id);
				for (std::size_t k : n.children)
					CHECK(alive.count(pool.RetrieveFromIndex(k)->id) == 1, "child of", n.id);
			}
			CHECK(seen == alive, "nodes of the pool are not those which were built");
		}
	};

	Node::Node(Forest& f, const Shape& s) : forest(f), id(s.id), check(~s.id), ghost(s.ghost)
	{
		std::size_t built = 0;
		try
		{
			for (const Shape& child : s.children)
			{
				if (s.throwAt == static_cast<int>(built))
					throw obj::Fault{};
				std::size_t index;
				Node* n = forest.pool.Allocate(index, forest, child);
				if (n->id != child.id || n == this || forest.pool.RetrieveFromIndex(index) != n)
					forest.c.softFail("an entry allocated from a constructor is not the one asked");
				children.push_back(index);
				built++;
			}
			if (s.throwAt >= static_cast<int>(built))
				throw obj::Fault{};
		}
		catch (const obj::Fault&)
		{
			for (std::size_t k : children)
				forest.pool.Free(k);
			check = 0;
			throw;
		}
		if (!forest.alive.emplace(id, this).second)
			forest.c.softFail("node built twice");
	}

	Node::~Node()
	{
		auto it = forest.alive.find(id);
		if (it == forest.alive.end() || it->second != this || check != ~id)
			forest.c.softFail("destructor called on a node which is not alive");
		else
			forest.alive.erase(it);
		check = 0;
		for (std::size_t k : children)
			forest.pool.Free(k);
		if (ghost)
		{
			Shape s;
			s.id = forest.next++;
			std::size_t index;
			forest.pool.Allocate(index, forest, s);
			forest.ghosts.push_back(index);
		}
	}

	void trees(pbt::Case& c)
	{
		std::size_t blockSize = c.pick<std::size_t>({ 1, 2, 3, 4, 7, 64 });
		LOG(blockSize << " entries per block");
		Forest f(c, blockSize);
		std::vector<std::size_t> roots;
		auto release = [&](std::vector<std::size_t>& from, std::size_t i)
		{
			std::size_t index = from[i];
			from.erase(from.begin() + static_cast<std::ptrdiff_t>(i));
			f.pool.Free(index);
		};
		for (std::size_t k = 0, n = c.size(1, 12); k < n; ++k)
		{
			switch (c.below(4))
			{
				case 0: case 1:
				{
					Shape s = f.shape(static_cast<unsigned>(c.below(4)), c.chance(1, 3));
					LOG("allocate " << Forest::text(s));
					std::size_t index, before = f.alive.size();
					bool thrown = false;
					try { Node* root = f.pool.Allocate(index, f, s); CHECK(root->id == s.id && f.pool.RetrieveEntryIndex(root) == index); roots.push_back(index); }
					catch (const obj::Fault&) { thrown = true; }
					CHECK_EQ(thrown, s.fails(), "failure");
					if (!thrown) CHECK_EQ(f.alive.size() - before, s.count(), "nodes built");
					if (s.children.size() > 0) c.nontrivial();
					c.tag(thrown ? "constructor of a node throws" : s.children.empty() ? "leaf" : "tree");
					break;
				}
				case 2:
					if (roots.empty()) break;
					{
						std::size_t i = c.below(roots.size());
						LOG("free tree " << f.pool.RetrieveFromIndex(roots[i])->id);
						release(roots, i);
						c.tag("tree freed");
					}
					break;
				case 3:
					if (f.ghosts.empty()) break;
					LOG("free node allocated by a destructor");
					release(f.ghosts, c.below(f.ghosts.size()));
					break;
			}
			f.verify();
		}
		while (!roots.empty()) { release(roots, roots.size() - 1); f.verify(); }
		while (!f.ghosts.empty()) { release(f.ghosts, f.ghosts.size() - 1); f.verify(); }
		CHECK(f.alive.empty(), "nodes still alive");
	}
}
PBT_TARGET("lifetimes: nodes which allocate and free nodes of their pool", 30000, &trees)
