// Minimal stand-in for the Partio point cloud library (the git submodule is
// empty in this sandbox).  Just enough of the API for aqsis to link and run:
// in-memory particles with float attributes, a trivial text file format, and
// brute force nearest neighbour search.
#ifndef VERIF_PARTIO_STUB_H
#define VERIF_PARTIO_STUB_H
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <cassert>

namespace Partio {

enum ParticleAttributeType { NONE=0, VECTOR=1, FLOAT=2, INT=3, INDEXEDSTR=4 };
typedef size_t ParticleIndex;

struct ParticleAttribute
{
	ParticleAttributeType type;
	int count;
	std::string name;
	int attributeIndex;
	ParticleAttribute() : type(NONE), count(0), attributeIndex(-1) {}
};

template<typename T, int N> struct Data
{
	T x[N];
	const T& operator[](int i) const { return x[i]; }
	T& operator[](int i) { return x[i]; }
};

class ParticlesDataMutable;
typedef ParticlesDataMutable ParticlesData;
typedef ParticlesDataMutable ParticlesInfo;

struct ParticleAccessor
{
	ParticleAttribute attr;
	ParticleAccessor(const ParticleAttribute& a) : attr(a) {}
	template<typename T, typename It> const T& data(const It& it) const
	{ return *reinterpret_cast<const T*>(it.ptr(attr)); }
};

class ParticlesDataMutable
{
	public:
		struct const_iterator
		{
			const ParticlesDataMutable* p;
			size_t i;
			void addAccessor(ParticleAccessor&) {}
			const_iterator& operator++() { ++i; return *this; }
			bool operator!=(const const_iterator& o) const { return i != o.i; }
			bool operator==(const const_iterator& o) const { return i == o.i; }
			const float* ptr(const ParticleAttribute& a) const
			{ return p->data<float>(a, i); }
		};
		ParticlesDataMutable() : m_n(0) {}
		void release() const { delete this; }
		ParticleAttribute addAttribute(const char* name, ParticleAttributeType t, int count);
		bool attributeInfo(const char* name, ParticleAttribute& a) const;
		bool attributeInfo(int i, ParticleAttribute& a) const;
		int numAttributes() const { return (int)m_attrs.size(); }
		int numParticles() const { return (int)m_n; }
		ParticleIndex addParticle();
		template<typename T> T* dataWrite(const ParticleAttribute& a, ParticleIndex i)
		{ return reinterpret_cast<T*>(&m_data[a.attributeIndex][i*a.count]); }
		template<typename T> const T* data(const ParticleAttribute& a, ParticleIndex i) const
		{ return reinterpret_cast<const T*>(&m_data[a.attributeIndex][i*a.count]); }
		void dataAsFloat(const ParticleAttribute& a, int n, const ParticleIndex* idx,
				bool sorted, float* out) const;
		int findNPoints(const float center[3], int nPoints, float maxRadius,
				ParticleIndex* points, float* distSq, float* finalRadius2) const;
		void sort() {}
		const_iterator begin() const { const_iterator i = {this, 0}; return i; }
		const_iterator end() const { const_iterator i = {this, m_n}; return i; }
	private:
		size_t m_n;
		std::vector<ParticleAttribute> m_attrs;
		std::vector<std::vector<float> > m_data;
};

ParticlesDataMutable* create();
ParticlesDataMutable* read(const char* fileName);
void write(const char* fileName, const ParticlesData& data, bool forceCompressed=false);

}
#endif
