#include "Partio.h"
#include <algorithm>
#include <fstream>
#include <iomanip>

namespace Partio {

ParticleAttribute ParticlesDataMutable::addAttribute(const char* name,
		ParticleAttributeType t, int count)
{
	ParticleAttribute a;
	a.type = t; a.count = count; a.name = name;
	a.attributeIndex = (int)m_attrs.size();
	m_attrs.push_back(a);
	m_data.push_back(std::vector<float>(m_n*count, 0.0f));
	return a;
}

bool ParticlesDataMutable::attributeInfo(const char* name, ParticleAttribute& a) const
{
	for(size_t i = 0; i < m_attrs.size(); ++i)
		if(m_attrs[i].name == name) { a = m_attrs[i]; return true; }
	return false;
}

bool ParticlesDataMutable::attributeInfo(int i, ParticleAttribute& a) const
{
	if(i < 0 || i >= (int)m_attrs.size()) return false;
	a = m_attrs[i];
	return true;
}

ParticleIndex ParticlesDataMutable::addParticle()
{
	for(size_t i = 0; i < m_attrs.size(); ++i)
		m_data[i].resize(m_data[i].size() + m_attrs[i].count, 0.0f);
	return m_n++;
}

void ParticlesDataMutable::dataAsFloat(const ParticleAttribute& a, int n,
		const ParticleIndex* idx, bool, float* out) const
{
	for(int i = 0; i < n; ++i)
		for(int k = 0; k < a.count; ++k)
			*out++ = m_data[a.attributeIndex][idx[i]*a.count + k];
}

int ParticlesDataMutable::findNPoints(const float c[3], int nPoints, float maxRadius,
		ParticleIndex* points, float* distSq, float* finalRadius2) const
{
	ParticleAttribute pos;
	if(!attributeInfo("position", pos)) return 0;
	std::vector<std::pair<float, size_t> > d;
	for(size_t i = 0; i < m_n; ++i)
	{
		const float* p = &m_data[pos.attributeIndex][3*i];
		float r = 0;
		for(int k = 0; k < 3; ++k) r += (p[k]-c[k])*(p[k]-c[k]);
		if(r <= maxRadius*maxRadius) d.push_back(std::make_pair(r, i));
	}
	int n = std::min(nPoints, (int)d.size());
	std::partial_sort(d.begin(), d.begin()+n, d.end());
	for(int i = 0; i < n; ++i) { points[i] = d[i].second; distSq[i] = d[i].first; }
	if(finalRadius2) *finalRadius2 = n > 0 ? d[n-1].first : 0;
	return n;
}

ParticlesDataMutable* create() { return new ParticlesDataMutable(); }

ParticlesDataMutable* read(const char* fileName)
{
	std::ifstream f(fileName);
	std::string magic;
	size_t na = 0, n = 0;
	if(!(f >> magic >> na >> n) || magic != "verifptc") return 0;
	ParticlesDataMutable* p = create();
	std::vector<ParticleAttribute> attrs;
	for(size_t i = 0; i < na; ++i)
	{
		std::string name; int type = 0, count = 0;
		f >> name >> type >> count;
		attrs.push_back(p->addAttribute(name.c_str(), ParticleAttributeType(type), count));
	}
	for(size_t j = 0; j < n; ++j)
	{
		p->addParticle();
		for(size_t i = 0; i < na; ++i)
			for(int k = 0; k < attrs[i].count; ++k)
				f >> p->dataWrite<float>(attrs[i], j)[k];
	}
	return p;
}

void write(const char* fileName, const ParticlesData& p, bool)
{
	std::ofstream f(fileName);
	f << std::setprecision(9);
	f << "verifptc " << p.numAttributes() << " " << p.numParticles() << "\n";
	std::vector<ParticleAttribute> attrs(p.numAttributes());
	for(int i = 0; i < p.numAttributes(); ++i)
	{
		p.attributeInfo(i, attrs[i]);
		f << attrs[i].name << " " << int(attrs[i].type) << " " << attrs[i].count << "\n";
	}
	for(int j = 0; j < p.numParticles(); ++j)
	{
		for(int i = 0; i < p.numAttributes(); ++i)
			for(int k = 0; k < attrs[i].count; ++k)
				f << p.data<float>(attrs[i], j)[k] << " ";
		f << "\n";
	}
}

}
