From f12b07bb2f471acb15c5416d51c984e607db59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:30 +0000
Subject: [PATCH 001/112] fix: initialise the negation flag of the repository
 name matcher

ElementRepository::Find and Count compared against an uninitialised
member, so the set of elements returned was undefined.
---
 Merlin++/ElementRepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index b7ac8e2..1780757 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -21,7 +21,7 @@ struct MatchID
 public:
 
 	MatchID(const string& idpat, bool negate = false) :
-		pattern(idpat)
+		neg(negate), pattern(idpat)
 	{
 	}
 	bool operator()(const ModelElement* elmnt) const
-- 
2.43.0


From ecc47cd22bc1b338e947de6f567ffc007f25ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:47 +0000
Subject: [PATCH 002/112] fix: ExtractModelElements overwrites its result
 vector as documented

---
 Merlin++/AcceleratorModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0332148..dbba87a 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -196,6 +196,7 @@ int AcceleratorModel::ExtractComponents(const string& pat, vector<ComponentFrame
 
 int AcceleratorModel::ExtractModelElements(const string& pat, vector<ModelElement*>& results)
 {
+	results.clear();
 	return theElements->Find(pat, results);
 }
 
-- 
2.43.0


From 9147bbe08a431241323b017f4d9daa3e449015c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:47 +0000
Subject: [PATCH 003/112] fix: GetBeamline rejects a start index beyond the
 lattice

Only the end index was checked; an out of range start index produced an
invalid iterator instead of the documented BadRange.
---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index dbba87a..38ab22d 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -113,7 +113,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline()
 
 AcceleratorModel::Beamline AcceleratorModel::GetBeamline(AcceleratorModel::Index n1, AcceleratorModel::Index n2)
 {
-	if(n2 >= lattice.size())
+	if(n1 >= lattice.size() || n2 >= lattice.size())
 	{
 		throw BadRange();
 	}
-- 
2.43.0


From 67f7c6bc1d3722c1ec9bfd76b6d51b4e62f5dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:47 +0000
Subject: [PATCH 004/112] fix: count every occurrence of the end pattern in
 GetBeamline

An element matching both patterns was counted for the start pattern
only, so the n-th occurrence of the end pattern was miscounted.
---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 38ab22d..601a655 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -143,7 +143,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline(const string& pat1, con
 			i1 = i;
 			ni1 = ni;
 		}
-		else if(nn2 < n2 && p2(id) && ++nn2 == n2)
+		if(nn2 < n2 && p2(id) && ++nn2 == n2)
 		{
 			i2 = i;
 			ni2 = ni;
-- 
2.43.0


From 855bc14c449c5fadc6d580c88d380d8ec820a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:47 +0000
Subject: [PATCH 005/112] fix: match the last literal of a name pattern at the
 end of the name

"*ab" did not match "abab" because the first occurrence was taken.
---
 Merlin++/StringPattern.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 7c2f62c..6cfb884 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -85,6 +85,12 @@ bool StringPattern::Match(const std::string& s) const
 
 		if(allowFloat)
 		{
+			// a final literal must match the end of the string
+			if(!wcterm.second && i + 1 == patterns.end())
+			{
+				const string::size_type len = (*i).length();
+				return s.length() - n >= len && s.compare(s.length() - len, len, *i) == 0;
+			}
 			n = s.find(*i, n);
 			if(n == string::npos)
 			{
-- 
2.43.0


From 207ec8493e08c27a631e62b1dc1cde07a11ae64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:47 +0000
Subject: [PATCH 006/112] fix: AppendFrame sets beamline indexes and keeps
 patch frames

---
 Merlin++/AcceleratorModelConstructor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index 36634ef..a5a8149 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -61,8 +61,12 @@ public:
 			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
 			if(cf)
 			{
-				erepo->Add(&(cf->GetComponent()));
+				if(cf->IsComponent())
+				{
+					erepo->Add(&(cf->GetComponent()));
+				}
 				lattice->push_back(cf);
+				cf->SetBeamlineIndex(lattice->size() - 1);
 			}
 		}
 		catch(bad_cast& b)
-- 
2.43.0


From 6b7249d8c06796085f7fd827856cca9f1df588e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:14 +0000
Subject: [PATCH 007/112] fix: ExtractComponents handles patch frames, which
 hold no component

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 601a655..a45718e 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -34,7 +34,7 @@ struct MatchName
 	}
 	bool operator()(const ComponentFrame* frm)
 	{
-		return pattern((*frm).GetComponent().GetQualifiedName());
+		return pattern((*frm).IsComponent() ? (*frm).GetComponent().GetQualifiedName() : (*frm).GetQualifiedName());
 	}
 
 };
-- 
2.43.0


From 001a615dfa33219a1a3bef09e6941fafaffeab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:14 +0000
Subject: [PATCH 008/112] fix: do not use an invalidated iterator in
 InstallModelElement

---
 Merlin++/AcceleratorModel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index a45718e..42f8d6c 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -294,8 +294,9 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	// replace the existing drift
 	auto insert_marker = lattice.erase(current_cf);
-	lattice.insert(insert_marker, c_drift2); // in reverse order
-	lattice.insert(insert_marker, c_element);
+	// in reverse order, taking the new iterator as insert may reallocate
+	insert_marker = lattice.insert(insert_marker, c_drift2);
+	insert_marker = lattice.insert(insert_marker, c_element);
 	lattice.insert(insert_marker, c_drift1);
 
 	theElements->Add(c_drift1);
-- 
2.43.0


From b63078405adbefc6b45c11437dba1b5eb747b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:14 +0000
Subject: [PATCH 009/112] fix: InstallModelElement registers the new elements
 and updates beamline indexes

---
 Merlin++/AcceleratorModel.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 42f8d6c..253da65 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -302,6 +302,15 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	theElements->Add(c_drift1);
 	theElements->Add(c_drift2);
 	theElements->Add(c_element);
+	theElements->Add(drift1);
+	theElements->Add(drift2);
+	theElements->Add(element);
+
+	// the elements downstream have moved
+	for(size_t n = 0; n < lattice.size(); n++)
+	{
+		lattice[n]->SetBeamlineIndex(n);
+	}
 }
 
 void AcceleratorModel::ReportModelStatistics(std::ostream& os) const
-- 
2.43.0


From dd80aaa91d31c550b1499d32686ef04abaa177ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:14 +0000
Subject: [PATCH 010/112] fix: place the frames of a split drift at their
 centres, skip patch frames

---
 Merlin++/AcceleratorModel.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 253da65..90bb5b3 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -248,6 +248,10 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	for(current_cf = lattice.begin(); current_cf < lattice.end(); current_cf++)
 	{
+		if(!(*current_cf)->IsComponent())
+		{
+			continue;
+		}
 		AcceleratorComponent* ac = &((*current_cf)->GetComponent());
 		s += ac->GetLength();
 		if(s > at)
@@ -288,8 +292,9 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	drift1->SetComponentLatticePosition(at - cut_len1);
 	drift2->SetComponentLatticePosition(at);
 	element->SetComponentLatticePosition(at);
-	c_drift1->SetLocalPosition(at - cut_len1);
-	c_drift2->SetLocalPosition(at);
+	// (the origin of a drift frame is at its centre)
+	c_drift1->SetLocalPosition(at - cut_len1 / 2);
+	c_drift2->SetLocalPosition(at + cut_len2 / 2);
 	c_element->SetLocalPosition(at);
 
 	// replace the existing drift
-- 
2.43.0


From 409aa888d19747a73a6fb8288abe1ab2a71765d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 011/112] fix: invert geometry transforms of sequences that run
 backwards

SequenceGeometry::GetGeometryTransform(s0, s) with s < s0 returned the
forward transform when both points lie in the same sub-frame, and ran over
the general path for the whole sequence.
---
 Merlin++/SequenceFrame.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b409833..5fb457b 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -265,17 +265,18 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 		throw BeyondExtent();
 	}
 
-	if(fequal(s0, 0) && fequal(s, len_t))
-	{
-		return GetTotalGeometryTransform();
-	}
-
 	bool inv_t;
 	if((inv_t = (s0 > s)))
 	{
 		std::swap(s, s0);
 	}
 
+	if(fequal(s0, 0) && fequal(s, len_t))
+	{
+		Transform3D t = GetTotalGeometryTransform();
+		return inv_t ? t.inv() : t;
+	}
+
 	SequenceFrame::FrameList::const_iterator fi = theFrameList->begin();
 	double l = 0;
 
@@ -300,7 +301,8 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	Extent ext = (*fi)->GetLocalGeometryExtent();
 	if(fequal(s, l) || s < l)
 	{
-		return (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		return inv_t ? t.inv() : t;
 	}
 
 	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
-- 
2.43.0


From d93da751006c98a050ce6f8b8ad7e9310948481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 012/112] fix: position of the centre within a sub-frame of a
 centred sequence

The centre at s0 lies s - s0 before the exit of the sub-frame that ends at s.
---
 Merlin++/SequenceFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 5fb457b..064ce38 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -428,7 +428,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.first + s - s0;
+			double s1 = ext.second - (s - s0);
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From ab48d5acb412f0a6a5dce38531cefea0805cae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 013/112] fix: boundary transforms of sequences with origin at
 entrance or exit

The total transform was requested after the (identity) cache had been
allocated, so it always came out as the identity.
---
 Merlin++/SequenceFrame.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 064ce38..135e2dc 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -380,16 +380,22 @@ double SequenceGeometry::GetGeometryLength() const
 
 void SequenceGeometry::CalculateCachedTransforms()
 {
-	// Set up cached transformations for efficiency
-	if(t_cache == nullptr)
+	// The total transformation must be calculated
+	// without making use of the cached state
+	if(t_cache)
 	{
-		t_cache = new TCache;
+		delete t_cache;
+		t_cache = nullptr;
 	}
+	const Transform3D total = GetTotalGeometryTransform();
+
+	// Set up cached transformations for efficiency
+	t_cache = new TCache;
 
 	switch(omode)
 	{
 	case SequenceFrame::originAtEntrance:
-		t_cache->t_out = GetTotalGeometryTransform();
+		t_cache->t_out = total;
 		break;
 	case SequenceFrame::originAtCenter:
 		//		t_cache->t_in = GetGeometryTransform(0,-len_t/2);
@@ -397,7 +403,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 		CalculateCentreCT();
 		break;
 	case SequenceFrame::originAtExit:
-		t_cache->t_in = GetTotalGeometryTransform().inv();
+		t_cache->t_in = total.inv();
 		break;
 	}
 
-- 
2.43.0


From c8e63e35da89d9ea76c0302d5eab36d02cf72f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 014/112] fix: rounding of positions at the end of a sequence

Positions of sub-frames are sums of lengths. When such a sum exceeded the
length of the sequence by rounding, GetGeometryTransform threw BeyondExtent or
ran past the last sub-frame.
---
 Merlin++/SequenceFrame.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 135e2dc..30f0744 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
 #include "utils.h"
 #include "AcceleratorGeometry.h"
 #include "SequenceFrame.h"
@@ -260,7 +261,9 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 		s0 += len_t;
 	}
 
-	if(s < 0 || s > len_t || s0 < 0 || s0 > len_t)
+	// Positions are sums of lengths, so allow for rounding
+	const double tol = 1e-12 * (1 + len_t);
+	if(s < -tol || s > len_t + tol || s0 < -tol || s0 > len_t + tol)
 	{
 		throw BeyondExtent();
 	}
@@ -284,7 +287,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s0, l) || s0 < l)
+		if(s0 <= l + tol || *fi == theFrameList->back())
 		{
 			break;
 		}
@@ -293,14 +296,16 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	}
 
 	assert(fi != theFrameList->end());
+	s0 = std::min(std::max(s0, 0.0), l);
 
 	// s0 is now the distance from the entrance plane of *fi
 	// to the requested starting point.
 	// Now check if s is also within this frame. If so,
 	// return the local transform
 	Extent ext = (*fi)->GetLocalGeometryExtent();
-	if(fequal(s, l) || s < l)
+	if(s <= l + tol || *fi == theFrameList->back())
 	{
+		s = std::min(std::max(s, 0.0), l);
 		Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
 		return inv_t ? t.inv() : t;
 	}
@@ -312,7 +317,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s, l) || s < l)
+		if(s <= l + tol || *fi == theFrameList->back())
 		{
 			break;
 		}
@@ -321,6 +326,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	}
 
 	assert(fi != theFrameList->end());
+	s = std::min(std::max(s, 0.0), l);
 
 	// s is now the distance from the entrance plane of the *fi
 
-- 
2.43.0


From 48f1bd23363779e525ce9ae534615bff71ceaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 015/112] fix: copies of sequence and component frames have a
 geometry

The copy constructor of SequenceGeometry left every member uninitialised, and
that of ComponentFrame dropped the geometry of its component.
---
 Merlin++/ComponentFrame.h  |  4 ++++
 Merlin++/SequenceFrame.cpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Merlin++/ComponentFrame.h b/Merlin++/ComponentFrame.h
index 2a26278..c6ee114 100644
--- a/Merlin++/ComponentFrame.h
+++ b/Merlin++/ComponentFrame.h
@@ -122,6 +122,10 @@ inline ComponentFrame::ComponentFrame(AcceleratorComponent& ac, const string& id
 inline ComponentFrame::ComponentFrame(const ComponentFrame& rhs) :
 	LatticeFrame(rhs), theComponent(rhs.theComponent), blI(0)
 {
+	if(theComponent)
+	{
+		SetGeometry(theComponent->GetGeometry());
+	}
 }
 
 inline ComponentFrame::ComponentFrame(AcceleratorComponent* ac, const string& id) :
diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 30f0744..24984a0 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -25,8 +25,8 @@ public:
 
 	SequenceGeometry(SequenceFrame::FrameList* frames, SequenceFrame::Origin origin);
 
-	//	Copy constructor.
-	SequenceGeometry(const SequenceGeometry& rhs);
+	//	The frame list belongs to the sequence frame.
+	SequenceGeometry(const SequenceGeometry& rhs) = delete;
 
 	~SequenceGeometry();
 
@@ -107,9 +107,14 @@ SequenceFrame::SequenceFrame(const string& id, Origin originLoc) :
 SequenceFrame::SequenceFrame(const SequenceFrame& rhs) :
 	LatticeFrame(rhs)
 {
-	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom));
+	itsSeqGeom = new SequenceGeometry(&subFrames, rhs.itsSeqGeom->omode);
+	itsSeqGeom->len_t = rhs.itsSeqGeom->len_t;
 	SetGeometry(itsSeqGeom);
 	CopySubFrames(rhs.subFrames);
+	if(!subFrames.empty())
+	{
+		itsSeqGeom->CalculateCachedTransforms();
+	}
 }
 
 SequenceFrame::~SequenceFrame()
@@ -230,11 +235,6 @@ bool SequenceFrame::IsBoundaryPlane(BoundaryPlane p, const LatticeFrame* aSubFra
 	}
 }
 
-SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs) :
-	AcceleratorGeometry()
-{
-}
-
 SequenceGeometry::~SequenceGeometry()
 {
 	if(t_cache)
-- 
2.43.0


From c521eeba4805ed51394b66e43f84334601dc9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 016/112] fix: an empty sequence frame with centred origin is
 valid

---
 Merlin++/SequenceFrame.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 24984a0..0556b92 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -420,6 +420,11 @@ void SequenceGeometry::CalculateCentreCT()
 	double s = 0;
 	double s0 = len_t / 2;
 
+	if(theFrameList->empty())
+	{
+		return;
+	}
+
 	SequenceFrame::FrameList::const_iterator fi = theFrameList->begin();
 	Transform3D t;
 
-- 
2.43.0


From 3b6fcb015ddb9588d67fca109806040ff87357d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 017/112] fix: an arc without curvature is a straight line

The transforms of an arc with h = 0 were not a number.
---
 Merlin++/ArcGeometry.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Merlin++/ArcGeometry.cpp b/Merlin++/ArcGeometry.cpp
index 752ea47..5425881 100644
--- a/Merlin++/ArcGeometry.cpp
+++ b/Merlin++/ArcGeometry.cpp
@@ -10,8 +10,13 @@
 namespace
 {
 
-inline Transform3D MakeTransform(double phi, double h)
+inline Transform3D MakeTransform(double s, double h)
 {
+	if(h == 0)
+	{
+		return Transform3D::translation(0, 0, s);
+	}
+	const double phi = s * h;
 	return Transform3D(Point3D((cos(phi) - 1) / h, 0, sin(phi) / h), Rotation3D::rotationY(-phi));
 }
 
@@ -20,16 +25,15 @@ inline Transform3D MakeTransform(double phi, double h)
 Transform3D ArcGeometry::GetGeometryTransform(double s0, double s) const
 {
 	CheckBounds(s, s0);
-	return MakeTransform((s - s0) * h, h);
+	return MakeTransform(s - s0, h);
 }
 
 Transform3D ArcGeometry::GetGeometryTransform(BoundaryPlane p) const
 {
-	double phi = p == entrance ? -GetAngle() / 2 : GetAngle() / 2;
-	return MakeTransform(phi, h);
+	return MakeTransform(p == entrance ? -len / 2 : len / 2, h);
 }
 
 Transform3D ArcGeometry::GetTotalGeometryTransform() const
 {
-	return MakeTransform(GetAngle(), h);
+	return MakeTransform(len, h);
 }
-- 
2.43.0


From b4109d59787ef2638cb3ba2972287c9dc7764bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 018/112] fix: a girder follows the motion of either of its
 supports

The transform was only updated when both supports had been moved.
---
 Merlin++/SupportStructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 2709176..d488f7e 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -86,7 +86,7 @@ void SupportStructure::UpdateSupportTransform() const
 	// Check if cached state needs updating, otherwise
 	// return.
 
-	if(!sup1->modified || (sup2 && !sup2->modified))
+	if(!sup1->modified && !(sup2 && sup2->modified))
 	{
 		return;
 	}
-- 
2.43.0


From 9bce200386750e7fea0221e0aac2b7e7c20d471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 019/112] fix: initialise the second support of copied support
 structures

---
 Merlin++/SupportStructure.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index d488f7e..f91b8e0 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -20,10 +20,7 @@ SupportStructure::SupportStructure(const SupportStructure& rhs) :
 	SequenceFrame(rhs)
 {
 	sup1 = new AcceleratorSupport();
-	if(rhs.sup2)
-	{
-		sup2 = new AcceleratorSupport();
-	}
+	sup2 = rhs.sup2 ? new AcceleratorSupport() : nullptr;
 }
 
 SupportStructure::~SupportStructure()
-- 
2.43.0


From e5cdc1ab0e56809d63a2d3d10c9dc308336753e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:20 +0000
Subject: [PATCH 020/112] fix: the position of a frame within itself is zero

---
 Merlin++/LatticeFrame.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/LatticeFrame.cpp b/Merlin++/LatticeFrame.cpp
index 0fb7826..1b7ac4f 100644
--- a/Merlin++/LatticeFrame.cpp
+++ b/Merlin++/LatticeFrame.cpp
@@ -64,6 +64,10 @@ Transform3D LatticeFrame::GetPhysicalTransform(const LatticeFrame* sframe) const
 double LatticeFrame::GetPosition(const LatticeFrame* sframe) const
 {
 	VALID_SFRAME(sframe);
+	if(sframe == this)
+	{
+		return 0;
+	}
 	return sframe == superFrame ? s_0 : s_0 + superFrame->GetPosition(sframe);
 }
 
-- 
2.43.0


From 9a50d7eaeca3f60092325b0807b1ffdf2151b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 021/112] fix: RemoveProcess reports whether the process was
 present

---
 Merlin++/ProcessStepManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 892c14e..dffa006 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -173,8 +173,12 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
 {
 	proc_itor p = find(processTable.begin(), processTable.end(), aProcess);
-	p = processTable.erase(p);
-	return p != processTable.end();
+	if(p == processTable.end())
+	{
+		return false;
+	}
+	processTable.erase(p);
+	return true;
 }
 
 void ProcessStepManager::ClearProcesses()
-- 
2.43.0


From 123b4dd71eaa4d7fba93a969902234e88644393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 022/112] fix: monitors take one measurement per passage when
 tracked in several steps

---
 Merlin++/SMPStdIntegrators.cpp | 6 ++++--
 Merlin++/StdIntegrators.cpp    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 7eac49a..7316ecc 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -406,9 +406,11 @@ void MonitorCI::TrackStep(double ds)
 	else
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		// measure once only, in the step which reaches the measurement point
+		const double s0 = GetIntegratedLength();
+		if(s0 <= mpt && (s0 + ds > mpt || (AtExit(ds) && fequal(s0 + ds, mpt))))
 		{
-			double s1 = mpt - GetIntegratedLength();
+			double s1 = mpt - s0;
 			ApplyDrift(s1, *currentBunch);
 			currentComponent->MakeMeasurement(*currentBunch);
 			ds -= s1;
diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 4fd16e7..56ad85a 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -390,9 +390,11 @@ void MonitorCI::TrackStep(double ds)
 	else
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		// measure once only, in the step which reaches the measurement point
+		const double s0 = GetIntegratedLength();
+		if(s0 <= mpt && (s0 + ds > mpt || (AtExit(ds) && fequal(s0 + ds, mpt))))
 		{
-			double s1 = mpt - GetIntegratedLength();
+			double s1 = mpt - s0;
 			ApplyDrift(currentBunch->GetParticles(), s1);
 			//				IncrStep(s1); // need to increment bunch timing
 			currentComponent->MakeMeasurement(*currentBunch);
-- 
2.43.0


From e1bce93e50775f37541c22d7dc305d014aa233e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:58 +0000
Subject: [PATCH 023/112] fix: stepping through a beamline treats patches and
 injection on axis as a run does

---
 Merlin++/TrackingSimulation.cpp | 16 ++++++++++++++--
 Merlin++/TrackingSimulation.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 417e17b..6ee1acf 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -72,6 +72,7 @@ template<class I>
 ComponentFrame* TrackingSimulation::TStepper<I>::NextFrame()
 {
 	curr++;
+	atFirst = false;
 	return cFrame = curr == last ? nullptr : *curr;
 }
 
@@ -267,11 +268,22 @@ bool TrackingSimulation::StepComponent()
 {
 	assert(cstepper && cstepper->cFrame);
 	ComponentFrame* frame = cstepper->cFrame;
-	if(incX)
+	if(incX && !(injOnAxis && cstepper->atFirst))
 	{
 		bunch->ApplyTransformation(frame->GetEntrancePlaneTransform());
 	}
-	stepper.Track(frame->GetComponent());
+	if(const Transform3D* t = frame->GetEntranceGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+	if(frame->IsComponent())
+	{
+		stepper.Track(frame->GetComponent());
+	}
+	if(const Transform3D* t = frame->GetExitGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
 	if(incX)
 	{
 		bunch->ApplyTransformation(frame->GetExitPlaneTransform());
diff --git a/Merlin++/TrackingSimulation.h b/Merlin++/TrackingSimulation.h
index 00c7abe..f5d19b7 100644
--- a/Merlin++/TrackingSimulation.h
+++ b/Merlin++/TrackingSimulation.h
@@ -87,6 +87,7 @@ private:
 		}
 		virtual ComponentFrame* NextFrame() = 0;
 		ComponentFrame* cFrame;
+		bool atFirst = true;
 	};
 
 	/**
-- 
2.43.0


From 45a686ee80122acf271e61027c8a7c1a667c814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:19 +0000
Subject: [PATCH 024/112] fix: TrackStep returns the remaining distance and
 rejects steps beyond the exit

---
 Merlin++/ComponentTracker.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ComponentTracker.cpp b/Merlin++/ComponentTracker.cpp
index 865e486..562d308 100644
--- a/Merlin++/ComponentTracker.cpp
+++ b/Merlin++/ComponentTracker.cpp
@@ -16,6 +16,7 @@
 #include "ComponentIntegrator.h"
 #include "ComponentTracker.h"
 #include "Marker.h"
+#include "AcceleratorGeometry.h"
 
 //	The only default integrator supplied is that for a
 //	Marker element, which are zero-length pseudo-components.
@@ -101,11 +102,14 @@ void ComponentTracker::Track()
 double ComponentTracker::TrackStep(double ds)
 {
 	assert(itsState == initialised || itsState == tracking);
-	assert(integrator->IsValidStep(ds));
+	if(!integrator->IsValidStep(ds))
+	{
+		throw AcceleratorGeometry::BeyondExtent();
+	}
 
 	double sToExit = integrator->Track(ds);
 	itsState = fequal(sToExit, 0) ? finished : tracking;
-	return itsState;
+	return sToExit;
 }
 
 void ComponentTracker::Reset()
-- 
2.43.0


From 313996b748f346cd817087ce637c893c09676a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 025/112] fix: apply the entrance map of a component once, also
 after a step of zero length

---
 Merlin++/ComponentIntegrator.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ComponentIntegrator.h b/Merlin++/ComponentIntegrator.h
index 1e8f60f..bc23fd2 100644
--- a/Merlin++/ComponentIntegrator.h
+++ b/Merlin++/ComponentIntegrator.h
@@ -121,6 +121,7 @@ private:
 
 	double cur_S; ///< current integrated length
 	double tot_S; ///< total length
+	bool entered; ///< true once the entrance map has been applied
 
 	/**
 	 *  The current component
@@ -133,7 +134,7 @@ private:
 };
 
 inline ComponentIntegrator::ComponentIntegrator() :
-	cur_S(0), tot_S(0), component(nullptr)
+	cur_S(0), tot_S(0), entered(false), component(nullptr)
 {
 }
 
@@ -151,6 +152,7 @@ inline void ComponentIntegrator::SetCurrentComponent(AcceleratorComponent& aComp
 	component = &aComponent;
 	cur_S = 0;
 	tot_S = component->GetLength();
+	entered = false;
 }
 
 inline double ComponentIntegrator::GetIntegratedLength() const
@@ -171,9 +173,11 @@ inline bool ComponentIntegrator::IsValidStep(double ds) const
 
 inline double ComponentIntegrator::Track(double ds)
 {
-	if(AtEntrance())
+	// a step of zero length at the entrance must not repeat the entrance map
+	if(!entered)
 	{
 		TrackEntrance();
+		entered = true;
 	}
 
 	TrackStep(ds);
-- 
2.43.0


From c82b027e285e0ebec3e57de75f9cb4e4cdfc1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:56 +0000
Subject: [PATCH 026/112] fix: a step ending at the exit of a component to
 within rounding ends there

---
 Merlin++/ComponentTracker.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/ComponentTracker.cpp b/Merlin++/ComponentTracker.cpp
index 562d308..ec12cdd 100644
--- a/Merlin++/ComponentTracker.cpp
+++ b/Merlin++/ComponentTracker.cpp
@@ -102,6 +102,12 @@ void ComponentTracker::Track()
 double ComponentTracker::TrackStep(double ds)
 {
 	assert(itsState == initialised || itsState == tracking);
+	// a step ending at the exit to within rounding ends at the exit
+	const double sLeft = integrator->GetRemainingLength();
+	if(fequal(ds, sLeft, 1.0e-12))
+	{
+		ds = sLeft;
+	}
 	if(!integrator->IsValidStep(ds))
 	{
 		throw AcceleratorGeometry::BeyondExtent();
-- 
2.43.0


From 3cc65be23ad32e3788dfc209887eba07615be477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 027/112] fix: keep the input coordinates of a component for
 its later collimation points

---
 Merlin++/CollimateParticleProcess.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index b07b188..ea879ab 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -467,7 +467,14 @@ void CollimateParticleProcess::DoCollimation()
 	//DoOutput(lost,lost_i);
 
 	//make sure to clear up
-	InputArray.clear();             //The input array
+	//The lost particles leave the input array too, which may be needed again for this component
+	if(!is_collimator)
+	{
+		for(auto p = LostParticlePositions.rbegin(); p != LostParticlePositions.rend(); p++)
+		{
+			InputArray.erase(InputArray.begin() + *p);
+		}
+	}
 	LostParticlePositions.clear();  //A list of particles we want to use in the input array
 
 	if(double(nlost) / double(nstart) >= lossThreshold)
-- 
2.43.0


From 8430b3206ee3b2deac6dae50de7156078d8d30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 028/112] fix: report losses at the exit of a component and in
 components without length

---
 Merlin++/CollimateParticleProcess.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index ea879ab..e43189e 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -426,7 +426,7 @@ void CollimateParticleProcess::DoCollimation()
 				{
 					LostParticleTracker->TrackStep(StepSize);
 				}
-				if(LostParticleTracker->GetRemainingLength() == 0)
+				else
 				{
 					break;
 				}
@@ -446,6 +446,10 @@ void CollimateParticleProcess::DoCollimation()
 						(*p).ct() = length;
 					}
 					lost.push_back(*p);
+					for(auto &OutIt : CollimationOutputVector)
+					{
+						OutIt->Dispose(*currentComponent, length, (*p), ColParProTurn);
+					}
 				}
 			}
 
@@ -454,8 +458,18 @@ void CollimateParticleProcess::DoCollimation()
 			//and the "lost particle bunch"
 			delete LostBunch;
 		}
-		//if the element has zero length nothing needs to be done since all the losses will have occurred at the same point anyway.
+		//if the element has zero length no tracking needs to be done since all the losses will have occurred at the same point anyway.
 		//So PSvectorArray loss will contain the correct information
+		else
+		{
+			for(auto &p : lost)
+			{
+				for(auto &OutIt : CollimationOutputVector)
+				{
+					OutIt->Dispose(*currentComponent, 0, p, ColParProTurn);
+				}
+			}
+		}
 	}
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0ce3e8427d190421f9c24573dd34e55cf0f6a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 029/112] fix: a particle index list supplied by the caller is
 not deleted

---
 Merlin++/CollimateParticleProcess.cpp | 14 ++++++++++----
 Merlin++/CollimateParticleProcess.h   |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index e43189e..f9d2b9a 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -52,14 +52,14 @@ namespace ParticleTracking
 
 CollimateParticleProcess::CollimateParticleProcess(int priority, int mode, std::ostream* osp) :
 	ParticleBunchProcess("PARTICLE COLLIMATION", priority), cmode(mode), os(osp), createLossFiles(false), file_prefix(
-		""), lossThreshold(1), nstart(0), pindex(nullptr), ColParProTurn(0), FirstElementSet(0), scatter(false),
+		""), lossThreshold(1), nstart(0), pindex(nullptr), ownindex(false), ColParProTurn(0), FirstElementSet(0), scatter(false),
 	bin_size(0.1 * PhysicalUnits::meter), Imperfections(false)
 {
 }
 
 CollimateParticleProcess::~CollimateParticleProcess()
 {
-	if(pindex != nullptr)
+	if(ownindex)
 	{
 		delete pindex;
 	}
@@ -177,22 +177,28 @@ void CollimateParticleProcess::IndexParticles(bool index)
 	if(index && pindex == nullptr)
 	{
 		pindex = new list<size_t>;
+		ownindex = true;
 	}
 	else if(!index && pindex != nullptr)
 	{
-		delete pindex;
+		if(ownindex)
+		{
+			delete pindex;
+		}
 		pindex = nullptr;
+		ownindex = false;
 	}
 }
 
 void CollimateParticleProcess::IndexParticles(list<size_t>& anIndex)
 {
-	if(!pindex)
+	if(ownindex)
 	{
 		delete pindex;
 	}
 
 	pindex = &anIndex;
+	ownindex = false;
 }
 
 void CollimateParticleProcess::SetLossThreshold(double losspc)
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 119c680..5cef078 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -167,6 +167,7 @@ protected:
 	double lossThreshold;
 	size_t nstart;
 	std::list<size_t>* pindex;
+	bool ownindex; ///< pindex was created by this process
 
 	IDTBL idtbl;
 
-- 
2.43.0


From 378d2318605280faae964982b262f40f5bda1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 030/112] fix: count turns by the first element itself, not by
 its name and position

---
 Merlin++/CollimateParticleProcess.cpp | 5 +++--
 Merlin++/CollimateParticleProcess.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index f9d2b9a..a5e3509 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -52,7 +52,7 @@ namespace ParticleTracking
 
 CollimateParticleProcess::CollimateParticleProcess(int priority, int mode, std::ostream* osp) :
 	ParticleBunchProcess("PARTICLE COLLIMATION", priority), cmode(mode), os(osp), createLossFiles(false), file_prefix(
-		""), lossThreshold(1), nstart(0), pindex(nullptr), ownindex(false), ColParProTurn(0), FirstElementSet(0), scatter(false),
+		""), lossThreshold(1), nstart(0), pindex(nullptr), ownindex(false), ColParProTurn(0), FirstElement(nullptr), FirstElementSet(0), scatter(false),
 	bin_size(0.1 * PhysicalUnits::meter), Imperfections(false)
 {
 }
@@ -90,10 +90,11 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 	{
 		FirstElementName = component.GetName();
 		FirstElementS = component.GetComponentLatticePosition();
+		FirstElement = &component;
 		FirstElementSet = 1;
 		ColParProTurn = 1;
 	}
-	else if(component.GetName() == FirstElementName && component.GetComponentLatticePosition() == FirstElementS)
+	else if(&component == FirstElement)
 	{
 		++ColParProTurn;
 	}
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 5cef078..6f3a1ca 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -201,6 +201,7 @@ protected:
 	int ColParProTurn;
 	std::string FirstElementName;
 	double FirstElementS;
+	const AcceleratorComponent* FirstElement;
 	bool FirstElementSet;
 
 private:
-- 
2.43.0


From abc497ac7b07680f73234e1f74d65d21c5163625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 031/112] fix: the last bin of a collimator ends at its exit,
 and bins hold whatever the steps

---
 Merlin++/CollimateParticleProcess.cpp | 30 +++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index a5e3509..f34ffc5 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -104,6 +104,7 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 	{
 		currentComponent = &component;
 		s = 0;
+		int_s = 0;
 		Collimator* aCollimator = dynamic_cast<Collimator*>(&component);
 
 		const CollimatorAperture* tap = dynamic_cast<const CollimatorAperture*> (currentComponent->GetAperture());
@@ -148,8 +149,8 @@ void CollimateParticleProcess::DoProcess(double ds)
 	if(fequal(s, next_s))
 	{
 		//This lets the scattering routine know how far down the collimator we are for aperture checking inside the scattering step.
-		int_s = s - ds;
 		DoCollimation();
+		int_s = s;
 		SetNextS();
 	}
 
@@ -163,14 +164,7 @@ void CollimateParticleProcess::DoProcess(double ds)
 
 double CollimateParticleProcess::GetMaxAllowedStepSize() const
 {
-	if(!is_collimator)
-	{
-		return next_s - s;
-	}
-	else
-	{
-		return bin_size;
-	}
+	return next_s - s;
 }
 
 void CollimateParticleProcess::IndexParticles(bool index)
@@ -212,6 +206,10 @@ void CollimateParticleProcess::DoCollimation()
 	//The aperture of this element
 	const Aperture *ap = currentComponent->GetAperture();
 
+	// In a collimator the particles are checked where the bin that ends at s starts
+	const double bin = s - int_s;
+	const double z = is_collimator ? int_s : s;
+
 	// If there are no losses there is no need to go through the expensive
 	// process of copying all the particles to a new bunch. So check first
 	bool any_loss = false;
@@ -221,7 +219,7 @@ void CollimateParticleProcess::DoCollimation()
 
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end(); p++)
 		{
-			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin_size * (*p).xp(), (*p).y() - bin_size * (*p).yp(), s))
+			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin * (*p).xp(), (*p).y() - bin * (*p).yp(), z))
 			{
 				any_loss = true;
 				first_loss = p - currentBunch->begin();
@@ -268,8 +266,8 @@ void CollimateParticleProcess::DoCollimation()
 	{
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end();)
 		{
-			(*p).x() -= bin_size * (*p).xp();
-			(*p).y() -= bin_size * (*p).yp();
+			(*p).x() -= bin * (*p).xp();
+			(*p).y() -= bin * (*p).yp();
 			p++;
 		}
 	}
@@ -284,14 +282,14 @@ void CollimateParticleProcess::DoCollimation()
 //			(*p).x() -= bin_size * (*p).xp();
 //			(*p).y() -= bin_size * (*p).yp();
 //		}
-		if(particle_number >= first_loss && !ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), s))
+		if(particle_number >= first_loss && !ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), z))
 		{
 			// If not a collimator, then do not scatter and directly remove the particle.
 			if(!is_collimator || DoScatter(*p) == ScatterOutcome::absorbed)
 			{
 				if(is_collimator)
 				{
-					(*p).ct() += (s - bin_size);
+					(*p).ct() += int_s;
 				}
 
 				lost.push_back(*p);
@@ -322,8 +320,8 @@ void CollimateParticleProcess::DoCollimation()
 		{
 			if(is_collimator)
 			{
-				(*p).x() += bin_size * (*p).xp();
-				(*p).y() += bin_size * (*p).yp();
+				(*p).x() += bin * (*p).xp();
+				(*p).y() += bin * (*p).yp();
 			}
 
 			//Not interacting with the collimator: "Inside" the aperture; particle lives
-- 
2.43.0


From 07c41eb0490e53eeb5c4f9819f0e92289ec7069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 032/112] fix: report particles absorbed in a collimator
 without scattering

---
 Merlin++/CollimateParticleProcess.cpp | 9 +++++++++
 Merlin++/CollimateParticleProcess.h   | 5 +----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index f34ffc5..c5811e9 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -196,6 +196,15 @@ void CollimateParticleProcess::IndexParticles(list<size_t>& anIndex)
 	ownindex = false;
 }
 
+CollimateParticleProcess::ScatterOutcome CollimateParticleProcess::DoScatter(Particle& p)
+{
+	for(auto &OutIt : CollimationOutputVector)
+	{
+		OutIt->Dispose(*currentComponent, int_s, p, ColParProTurn);
+	}
+	return ScatterOutcome::absorbed;
+}
+
 void CollimateParticleProcess::SetLossThreshold(double losspc)
 {
 	lossThreshold = losspc / 100.0;
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 6f3a1ca..7328868 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -223,10 +223,7 @@ private:
 	 *
 	 * Can be overridden with a scattering routine, for example in CollimateProtonProcess
 	 */
-	virtual ScatterOutcome DoScatter(Particle&)
-	{
-		return ScatterOutcome::absorbed;
-	}
+	virtual ScatterOutcome DoScatter(Particle&);
 
 	/**
 	 * A list of particles we want to use in the input array
-- 
2.43.0


From ab0ddaa0eafdb44abbc9331a205eb95d70ffd8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 033/112] fix: a loss map counts each loss once, in the entry
 of its element

---
 Merlin++/LossMapCollimationOutput.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a0beddf..322040a 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -5,6 +5,9 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
+#include <tuple>
+
 #include "LossMapCollimationOutput.h"
 
 namespace ParticleTracking
@@ -79,7 +82,12 @@ LossMapCollimationOutput::LossMapCollimationOutput(OutputType ot)
 void LossMapCollimationOutput::Finalise()
 {
 	//First sort DeadParticles according to s
-	sort(DeadParticles.begin(), DeadParticles.end(), Compare_LossData);
+	//(the losses of each element stay together, also when several elements start at the same s)
+	stable_sort(DeadParticles.begin(), DeadParticles.end(), [](const LossData &a, const LossData &b)
+	{
+		return std::tie(a.s, a.length, a.ElementName, a.position) < std::tie(b.s, b.length, b.ElementName, b.position);
+	});
+	OutputLosses.clear();
 
 	std::cout << "CollimationOutput:: DeadParticles.size() = " << DeadParticles.size() << std::endl;
 
@@ -97,9 +105,8 @@ void LossMapCollimationOutput::Finalise()
 			{
 				OutputLosses.push_back(*it);
 			}
-
 			// If old element ++loss
-			if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName && it->s == OutputLosses[outit].s)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -120,9 +127,9 @@ void LossMapCollimationOutput::Finalise()
 			{
 				OutputLosses.push_back(*it);
 			}
-
 			// If position is equal
-			if(it->position == OutputLosses[outit].position)
+			else if(it->position == OutputLosses[outit].position && it->ElementName == OutputLosses[outit].ElementName &&
+				it->s == OutputLosses[outit].s)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -145,8 +152,8 @@ void LossMapCollimationOutput::Finalise()
 				OutputLosses[outit].lost = 1;
 			}
 			// If in the same bin ++loss
-			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->interval ==
-				OutputLosses[outit].interval))
+			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->s == OutputLosses[outit].s) &&
+				(it->interval == OutputLosses[outit].interval))
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From 93d951c15545065a8aec23395830ac7fc2d3ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 034/112] fix: cull every particle with a non-finite
 coordinate, whatever its id

---
 Merlin++/NANCheckProcess.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index a3a7ea1..c277bcf 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -37,20 +37,16 @@ void NANCheckProcess::DoProcess(const double ds)
 	bool do_cull = 0;
 	for(auto &p : *currentBunch)
 	{
-		if(reported.count(p.id()))
+		if(cull && !is_good(p))
 		{
-			continue;
+			do_cull = 1;
 		}
-		if(!is_good(p))
+		if(!reported.count(p.id()) && !is_good(p))
 		{
 			std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
 					  << currentComponent->GetQualifiedName() << std::endl;
 			Report(p.id());
 			reported.insert(p.id());
-			if(cull)
-			{
-				do_cull = 1;
-			}
 			if(halt)
 			{
 				std::cout << "Halting on NAN coordinate" << std::endl;
@@ -81,7 +77,10 @@ void NANCheckProcess::Report(int id) const
 		{
 			std::cout << "prev     " << *p_prev << std::endl;
 		}
-		std::cout << "start    " << *p_start << std::endl;
+		if(p_start != start_coords.end())
+		{
+			std::cout << "start    " << *p_start << std::endl;
+		}
 	}
 
 	auto p_cur = find_if(currentBunch->begin(), currentBunch->end(), [&id](const PSvector p)
-- 
2.43.0


From b33e299d873740c904f322e6c7e42292166bac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 035/112] fix: report every proton absorbed in a collimator, at
 the place where it is absorbed

---
 Merlin++/CollimateProtonProcess.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 9725362..4de1fcc 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -138,6 +138,13 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 		if((E2 < (E0 / 100.0)))
 		{
+			p.ct() = z;
+
+			for(auto &OutIt : CollimationOutputVector)
+			{
+				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+			}
+
 			return ScatterOutcome::absorbed;
 		}
 
@@ -177,7 +184,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 				for(auto &OutIt : CollimationOutputVector)
 				{
-					OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+					OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 				}
 
 				return ScatterOutcome::absorbed;
@@ -190,7 +197,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 			for(auto &OutIt : CollimationOutputVector)
 			{
-				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+				OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 			}
 			return ScatterOutcome::absorbed;
 		}
-- 
2.43.0


From 3ddbb8429541ee60a9e18fca54d4a7797b62ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 036/112] fix: a collimator aperture that narrows is also
 narrower close to the axis

---
 Merlin++/CollimatorAperture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 2ef3891..dda59cf 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -25,7 +25,7 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 	{
 		double ax = fabs(x);
 		double ay = fabs(y);
-		if(ax + ay < minDim)
+		if(ax + ay < fmin(minDim, fmin(w_exit, h_exit) / 2))
 			return true;
 	}
 	double x_off = (z * (x_offset_entry - x_offset_exit) / CollimatorLength) - x_offset_entry;
-- 
2.43.0


From 567f8c3f5dd76db274aac2acf4d8bc32d6cb8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 037/112] fix: an interpolated rect-ellipse that widens is not
 wide from its narrow end on

---
 Merlin++/InterpolatedApertures.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 75ba1bf..84fd9a9 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -101,7 +101,7 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 		}
 	}
 
-	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apFront.ap1, apBack.ap2, apBack.ap3,
+	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apBack.ap1, apBack.ap2, apBack.ap3,
 						 apBack.ap4});
 	if(ax + ay < minDim)
 	{
-- 
2.43.0


From c6f04f92c64cf5f20879e02f3eec02a76aaa5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 038/112] fix: an interpolated ellipse has the height of its
 profile

---
 Merlin++/InterpolatedApertures.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 84fd9a9..7a0a9af 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -325,11 +325,13 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
+			apBack.ap2 = ApList[n - 1].ap2;
 
 			apFront.s = ApList[n].s;
 			apFront.ap1 = ApList[n].ap1;
+			apFront.ap2 = ApList[n].ap2;
 
-			double minDim = min({apFront.ap1, apBack.ap1});
+			double minDim = min({apFront.ap1, apBack.ap1, apFront.ap2, apBack.ap2});
 			if(ax + ay < minDim)
 			{
 				return true;
@@ -373,7 +375,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap1 - (g2 * apFront.s);
+	double c2 = apFront.ap2 - (g2 * apFront.s);
 
 	double ellipse_half_horizontal = (g1 * z) + c1;
 	double ellipse_half_vertical = (g2 * z) + c2;
-- 
2.43.0


From 5161745413b3b04a48ecaef16ffe162eab03e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 039/112] fix: an interpolated aperture may have a step, i.e.
 two points at one place

---
 Merlin++/InterpolatedApertures.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 7a0a9af..bdbba16 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -93,7 +93,7 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 
 	for(size_t n = 1; n < ApList.size(); ++n)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack = ApList[n - 1];
 			apFront = ApList[n];
@@ -210,7 +210,7 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
@@ -321,7 +321,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
@@ -436,7 +436,7 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack = ApList[n - 1];
 			apFront = ApList[n];
-- 
2.43.0


From a9ccde110f557ad8731c8c4d979fb6a321376e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 040/112] fix: setting the entrance size of a collimator
 aperture has an effect

---
 Merlin++/CollimatorAperture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index dda59cf..100333c 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -43,11 +43,15 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 void CollimatorAperture::SetEntranceWidth(double width)
 {
 	w_entrance = width;
+	rectHalfX = width / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetEntranceHeight(double height)
 {
 	h_entrance = height;
+	rectHalfY = height / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetExitWidth(double width)
-- 
2.43.0


From d488efd414da7f2f5251efe410351124a0073cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 041/112] fix: elements beyond the last entry of an aperture
 table get no aperture

---
 Merlin++/ApertureConfiguration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 173aec1..ab74507 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -77,6 +77,12 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				return a.Get_d("S") < b;
 			});
 
+			//nothing is specified beyond the last entry
+			if(this_ap == ApertureDataTable.end())
+			{
+				continue;
+			}
+
 			aperture = ApertureFactory::GetInstance(*this_ap);
 			comp->SetAperture(aperture);
 			++noConfiguredApertures;
-- 
2.43.0


From c0f307ec0c4713f9d6495331c9f0b57ae5e3f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 042/112] fix: the aperture of the first and last drift keeps
 the entries at its ends

---
 Merlin++/ApertureConfiguration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index ab74507..2cd3236 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -118,6 +118,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					//get initial point, interpolate from last point
 					ThisElementAperture.ApertureFromRow(*last_ap);
+					ThisElementAperture.Set_d("S", 0, Position);
 				}
 				else
 				{
@@ -138,6 +139,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					this_ap = ApertureDataTable.begin();
 					ThisElementAperture.ApertureFromRow(*this_ap);
+					ThisElementAperture.Set_d("S", ThisElementAperture.Length() - 1, Position + ElementLength);
 				}
 				else
 				{
-- 
2.43.0


From 249230eaee7008dd053ea3f63247c89cc223f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 043/112] fix: a drift between apertures of different types
 interpolates between them

---
 Merlin++/ApertureConfiguration.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 2cd3236..2f23efb 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -206,7 +206,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 						typeChange = true;
 					}
 				}
-				if(interpolate)
+				if(interpolate || typeChange)
 				{
 					for(size_t row = 0; row < CleanElementAperture.Length(); ++row)
 					{
@@ -254,8 +254,9 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 							{
 								CleanElementAperture.Set("APER_1", row, CleanElementAperture.Get_d("APER_1", row));
 								CleanElementAperture.Set("APER_2", row, CleanElementAperture.Get_d("APER_2", row));
-								CleanElementAperture.Set("APER_3", row, CleanElementAperture.Get_d("APER_1", row));
-								CleanElementAperture.Set("APER_4", row, CleanElementAperture.Get_d("APER_2", row));
+								//the ellipse through the corners
+								CleanElementAperture.Set("APER_3", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_1", row));
+								CleanElementAperture.Set("APER_4", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_2", row));
 							}
 							if(CleanElementAperture.Get_s("APERTYPE", row) == "OCTAGON")
 							{
@@ -274,6 +275,13 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 								<< endl;
 							exit(EXIT_FAILURE);
 						}
+						if(rectellipse)
+						{
+							for(size_t row = 0; row < CleanElementAperture.Length(); ++row)
+							{
+								CleanElementAperture.Set("APERTYPE", row, "RECTELLIPSE");
+							}
+						}
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
 						++noConfiguredApertures;
-- 
2.43.0


From 18fe3bc0e102cad72cffb456333b422d7e12c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:00 +0000
Subject: [PATCH 044/112] fix: a text that is only partly a number is not taken
 for that number in a data table

---
 Merlin++/DataTable.cpp | 48 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/Merlin++/DataTable.cpp b/Merlin++/DataTable.cpp
index 514f9f0..b55aa66 100644
--- a/Merlin++/DataTable.cpp
+++ b/Merlin++/DataTable.cpp
@@ -7,7 +7,47 @@
 
 #include "DataTable.h"
 #include <cassert>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <iostream>
+#include <stdexcept>
+
+// Convert the whole of a string to a number, throws if any of it is not part of the number
+static void check_all_used(const std::string &x, size_t used)
+{
+	if(x.find_first_not_of(" \t\f\v\n\r", used) != std::string::npos)
+	{
+		throw std::invalid_argument("DataTable: Not a number of the column's type: '" + x + "'");
+	}
+}
+
+static double str_to_double(const std::string &x)
+{
+	const char *begin = x.c_str();
+	char *end;
+	errno = 0;
+	double value = std::strtod(begin, &end);
+	if(end == begin)
+	{
+		throw std::invalid_argument("DataTable: Not a number: '" + x + "'");
+	}
+	// ERANGE is also set by numbers too small for full precision, which are fine
+	if(errno == ERANGE && std::isinf(value))
+	{
+		throw std::out_of_range("DataTable: Number out of range: '" + x + "'");
+	}
+	check_all_used(x, end - begin);
+	return value;
+}
+
+static int str_to_int(const std::string &x)
+{
+	size_t used;
+	int value = std::stoi(x, &used);
+	check_all_used(x, used);
+	return value;
+}
 
 void DataTable::AddColumn(std::string col_name, char type)
 {
@@ -170,10 +210,10 @@ void DataTable::SetWithStr(const std::string col_name, size_t i, std::string x)
 	switch(l.type)
 	{
 	case 'd':
-		Set_d(col_name, i, stod(x));
+		Set_d(col_name, i, str_to_double(x));
 		break;
 	case 'i':
-		Set_i(col_name, i, stoi(x));
+		Set_i(col_name, i, str_to_int(x));
 		break;
 	case 's':
 		Set_s(col_name, i, x);
@@ -302,10 +342,10 @@ void DataTable::HeaderSetWithStr(const std::string col_name, std::string x)
 	switch(l.type)
 	{
 	case 'd':
-		HeaderSet_d(col_name, stod(x));
+		HeaderSet_d(col_name, str_to_double(x));
 		break;
 	case 'i':
-		HeaderSet_i(col_name, stoi(x));
+		HeaderSet_i(col_name, str_to_int(x));
 		break;
 	case 's':
 		HeaderSet_s(col_name, x);
-- 
2.43.0


From 9c701db8cf586161ec8b5d1d1fc7b9dc25c3298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:00 +0000
Subject: [PATCH 045/112] fix: a row of values that do not fit the columns is
 not left half filled in the data table

---
 Merlin++/DataTable.cpp | 17 +++++++++++++++++
 Merlin++/DataTable.h   | 12 +++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/Merlin++/DataTable.cpp b/Merlin++/DataTable.cpp
index b55aa66..e194e96 100644
--- a/Merlin++/DataTable.cpp
+++ b/Merlin++/DataTable.cpp
@@ -104,6 +104,23 @@ size_t DataTable::AddRow()
 	return length - 1;
 }
 
+void DataTable::RemoveLastRow()
+{
+	for(auto &a : data_d)
+	{
+		a.pop_back();
+	}
+	for(auto &a : data_i)
+	{
+		a.pop_back();
+	}
+	for(auto &a : data_s)
+	{
+		a.pop_back();
+	}
+	length--;
+}
+
 void DataTable::AddRowFromRow(DataTableRow dt)
 {
 	//TODO
diff --git a/Merlin++/DataTable.h b/Merlin++/DataTable.h
index 8d39165..4475e01 100644
--- a/Merlin++/DataTable.h
+++ b/Merlin++/DataTable.h
@@ -241,6 +241,8 @@ private:
 	void AddRowN(size_t, size_t)
 	{
 	}                               // Terminating case
+	/// Undo AddRow()
+	void RemoveLastRow();
 
 public:
 	//demo output
@@ -253,7 +255,15 @@ void DataTable::AddRow(Args ... arg)
 {
 	size_t col_n = 0;
 	size_t row_n = AddRow();
-	AddRowN(col_n, row_n, arg ...);
+	try
+	{
+		AddRowN(col_n, row_n, arg ...);
+	}
+	catch(...)
+	{
+		RemoveLastRow();
+		throw;
+	}
 }
 
 template<typename T, typename ... Args>
-- 
2.43.0


From 96dd8f1796fea0c84078a5d268dbcecfe0b0d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:00 +0000
Subject: [PATCH 046/112] fix: an empty string in a TFS file is read as a value

---
 Merlin++/DataTableTFS.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index cff913f..1c2737e 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -54,19 +54,22 @@ static std::vector<std::string> split_line(std::string line)
 	std::string current;
 	current.reserve(64);
 	bool double_quote_on = false;
+	bool quoted = false; // a quoted word can be empty
 
 	for(auto c : line)
 	{
 		if(c == '"')
 		{
 			double_quote_on = !double_quote_on;
+			quoted = true;
 		}
 		else if(!double_quote_on && whitespace.find(c) != std::string::npos)
 		{
-			if(current.length())
+			if(current.length() || quoted)
 			{
 				sl.push_back(current);
 				current = "";
+				quoted = false;
 			}
 		}
 		else
@@ -74,7 +77,7 @@ static std::vector<std::string> split_line(std::string line)
 			current += c;
 		}
 	}
-	if(current.length())
+	if(current.length() || quoted)
 	{
 		sl.push_back(current);
 	}
-- 
2.43.0


From 926a5b7ab015cf806e157b66341c676451a228d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:00 +0000
Subject: [PATCH 047/112] fix: a TFS file without its column lines is rejected

---
 Merlin++/DataTableTFS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index 1c2737e..1f96025 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -118,7 +118,7 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	//Read column names
-	if(words[0] != "*")
+	if(words.empty() || words[0] != "*")
 	{
 		throw BadFormatException("Expected line starting with '*' or '@' at line " + std::to_string(line_number));
 	}
@@ -131,7 +131,7 @@ DataTable DataTableReaderTFS::Read()
 	getline(*in, line);
 	line_number++;
 	words = split_line(line);
-	if(words[0] != "$")
+	if(words.empty() || words[0] != "$")
 	{
 		throw BadFormatException("Expected line starting with '$' at line " + std::to_string(line_number));
 	}
-- 
2.43.0


From 6f222ca77667c24a9f3612d17e1c01c79cad9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:00 +0000
Subject: [PATCH 048/112] fix: writing a TFS file does not depend on the format
 flags of the stream

---
 Merlin++/DataTableTFS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index 1f96025..fccad7d 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -203,6 +203,7 @@ void DataTableWriterTFS::Write(DataTable & dt)
 {
 	std::ios init(NULL);
 	init.copyfmt(*out);
+	out->copyfmt(std::ios(NULL)); // whatever the format of the stream is
 	*out << std::setprecision(prec_float);
 
 	for(auto &header_name : dt.HeaderNames())
-- 
2.43.0


From 794e89362a143298617cc297f28a3c0a956e5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:43 +0000
Subject: [PATCH 049/112] fix: an aperture row that cannot be copied is not
 left half filled in the data table

---
 Merlin++/DataTable.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/Merlin++/DataTable.cpp b/Merlin++/DataTable.cpp
index e194e96..ed3efb9 100644
--- a/Merlin++/DataTable.cpp
+++ b/Merlin++/DataTable.cpp
@@ -129,12 +129,20 @@ void DataTable::AddRowFromRow(DataTableRow dt)
 void DataTable::ApertureFromRow(DataTableRow dtrow)
 {
 	auto row = this->AddRow();
-	this->Set("APERTYPE", row, dtrow.Get_s("APERTYPE"));
-	this->Set_d("S", row, dtrow.Get_d("S"));
-	this->Set_d("APER_1", row, dtrow.Get_d("APER_1"));
-	this->Set_d("APER_2", row, dtrow.Get_d("APER_2"));
-	this->Set_d("APER_3", row, dtrow.Get_d("APER_3"));
-	this->Set_d("APER_4", row, dtrow.Get_d("APER_4"));
+	try
+	{
+		this->Set("APERTYPE", row, dtrow.Get_s("APERTYPE"));
+		this->Set_d("S", row, dtrow.Get_d("S"));
+		this->Set_d("APER_1", row, dtrow.Get_d("APER_1"));
+		this->Set_d("APER_2", row, dtrow.Get_d("APER_2"));
+		this->Set_d("APER_3", row, dtrow.Get_d("APER_3"));
+		this->Set_d("APER_4", row, dtrow.Get_d("APER_4"));
+	}
+	catch(...)
+	{
+		RemoveLastRow();
+		throw;
+	}
 }
 
 DataTable::location DataTable::get_location(const std::string &col_name) const
-- 
2.43.0


From a5c9a96b41010b0ac77c3e0fd87eb96f83de4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 050/112] fix: models built with MADInterface::AppendModel are
 complete when GetModel is called

---
 Merlin++/MADInterface.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8300ec7..ba44111 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -108,6 +108,7 @@ AcceleratorModel* MADInterface::ConstructModel()
 	if(modelconstr != nullptr && appendFlag == false)
 	{
 		delete modelconstr;
+		modelconstr = nullptr;
 	}
 	if(modelconstr == nullptr && appendFlag == false)
 	{
@@ -184,10 +185,17 @@ AcceleratorModel* MADInterface::ConstructModel()
 		}
 	}
 
+	delete factory;
+	if(appendFlag)
+	{
+		// more can be appended until GetModel() is called
+		return nullptr;
+	}
+
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
-	delete factory;
 	modelconstr = nullptr;
+	z = 0;
 	return theModel;
 }
 
@@ -309,8 +317,9 @@ void MADInterface::AppendModel(const string& fname, double Pref)
 
 	momentum = Pref;
 
-	appendFlag = 1;
+	appendFlag = true;
 	ConstructModel();
+	appendFlag = false;
 }
 
 AcceleratorModel* MADInterface::GetModel()
@@ -330,6 +339,7 @@ AcceleratorModel* MADInterface::GetModel()
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
 	modelconstr = nullptr;
+	z = 0;
 	return theModel;
 }
 
-- 
2.43.0


From 3f2f88310853d80da8bbf1a6ea51957449b755a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 051/112] fix: a MAD type treated as a drift is a drift also if
 the type is one that is renamed

---
 Merlin++/MADInterface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index ba44111..0d023ef 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -203,7 +203,10 @@ void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
 {
 	string keyword = MADinputrow.Get_s("KEYWORD");
 	if(driftTypes.find(keyword) != driftTypes.end())
+	{
 		MADinputrow.Set_s("KEYWORD", "DRIFT");
+		return;
+	}
 	if(keyword == "LCAV")
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY");
 	if(keyword == "RCOLLIMATOR" || keyword == "ECOLLIMATOR")
-- 
2.43.0


From 738bf633c02785c5b314eb67e5ec4f26ef298946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 052/112] fix: elements of a MAD type that is not known keep
 their length

---
 Merlin++/MADInterface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 0d023ef..71e0c35 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -659,6 +659,12 @@ vector<AcceleratorComponent*> TypeFactory::GetInstance(DataTableRow& MADinputrow
 	{
 		return (*itr->second)(MADinputrow, brho);
 	}
+	if(MADinputrow.Get_d("L") != 0)
+	{
+		// keep its place in the lattice
+		MerlinIO::warning() << "Treating unknown type " << type << " as a drift: " << MADinputrow.Get_s("NAME") << endl;
+		return DriftComponent::GetInstance(MADinputrow, brho);
+	}
 	return {};
 }
 
-- 
2.43.0


From 20dfcb2311259124b70f80a758bcced657e6eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:27 +0000
Subject: [PATCH 053/112] fix: keep the length of an imported wire scanner

The length was passed as the angle of the wire, so the monitor had no
length and everything downstream of it moved.
---
 Merlin++/MADInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 71e0c35..4c83ff0 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -639,7 +639,7 @@ vector<AcceleratorComponent*> MonitorComponent::GetInstance(DataTableRow& MADinp
 	double length = MADinputrow.Get_d("L");
 
 	if(name.substr(0, 2) == "WS")
-		return {new RMSProfileMonitor(name, length)};
+		return {new RMSProfileMonitor(name, pi / 4, length)};
 	else
 		return {new BPM(name, length)};
 }
-- 
2.43.0


From 5ca305badd7af608543a6bd9e23f34a8e3c3a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:04 +0000
Subject: [PATCH 054/112] fix: let a sector bend have a single rotated pole
 face

The import of a bend with E1 or E2 alone dereferenced the pole face that
is not there.
---
 Merlin++/SectorBend.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index 2c1c3b0..f1af238 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -99,16 +99,25 @@ public:
 			Clear();
 			entrance = e1;
 			exit = e2;
-			entrance->type = 1;
-			exit->type = 0;
+			if(entrance)
+			{
+				entrance->type = 1;
+			}
+			if(exit)
+			{
+				exit->type = 0;
+			}
 		}
 
 		void SetInfo(PoleFace* e1)
 		{
 			Clear();
 			entrance = exit = e1;
-			entrance->type = 1;
-			exit->type = 0;
+			if(e1)
+			{
+				entrance->type = 1;
+				exit->type = 0;
+			}
 		}
 
 		/**
-- 
2.43.0


From 961fe5b1a63fe92e8552befdeac5a262ea1c5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 055/112] fix: a klystron in vector sum mode adjusts its
 cavities

The setting was stored before the cavities were scaled by the ratio of the
new to the stored one, which was therefore always 1 (or 0/0). The cavities
are now scaled to the demanded vector from the sum they actually have.
---
 Merlin++/Klystron.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Merlin++/Klystron.cpp b/Merlin++/Klystron.cpp
index 4b14a0f..1cf9386 100644
--- a/Merlin++/Klystron.cpp
+++ b/Merlin++/Klystron.cpp
@@ -130,8 +130,16 @@ void Klystron::AppendBeamlineIndexes(std::vector<size_t>& ivec) const
 
 void Klystron::AdjustVectorSum(double v, double phi)
 {
-	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / Complex(V_k * cos(phi_k), V_k * sin(phi_k));
-	for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
+	const Complex z0 = for_each(rf_cavs.begin(), rf_cavs.end(), accumulate_vector_sum()).z;
+	if(z0 == Complex(0))
+	{
+		// no relative differences to maintain
+		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(v / rf_cavs.size(), phi));
+	}
+	else
+	{
+		for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(Complex(v * cos(phi), v * sin(phi)) / z0));
+	}
 	V_k = v;
 	phi_k = phi;
 }
-- 
2.43.0


From 301d8c7407f9598f964ef95c52542ddcd794d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 056/112] fix: a channel pattern finds all matching types

The search ended at the first matching type without the channel.
---
 Merlin++/ChannelServer.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 73be3c4..109b3a8 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -109,8 +109,7 @@ size_t ChannelServer::GetROChannels(const string& chID, std::vector<ROChannel*>&
 			FindCtors(etype, chpath.key, ctors);
 			if(ctors.empty())
 			{
-				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				MerlinIO::warning() << "ChannelServer: No channel constructors for " << etype << " found" << endl;
 			}
 		}
 
@@ -151,8 +150,7 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 			FindCtors(etype, chpath.key, ctors);
 			if(ctors.empty())
 			{
-				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				MerlinIO::warning() << "ChannelServer: No channel constructors for " << etype << " found" << endl;
 			}
 		}
 
-- 
2.43.0


From 61efcecfca0f18f111f9885aee1fe8fb2eb7c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 057/112] fix: read-only channels are not among the read-write
 channels

GetRWChannels returned null pointers for the BPM channels that match.
---
 Merlin++/ChannelServer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 109b3a8..4eece2d 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -158,7 +158,10 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 		for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 		{
 			RWChannel* ch = (*ci)->ConstructRW(*ei);
-			assert(ch != 0); // if(ch==0) throw ChannelIsRO(ch->GetID());
+			if(ch == nullptr)
+			{
+				continue; // a read-only channel
+			}
 			channels.push_back(ch);
 			count++;
 		}
@@ -226,7 +229,10 @@ size_t ChannelServer::GetRWChannels(AcceleratorModel::Beamline& aBeamline, const
 				for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 				{
 					RWChannel* ch = (*ci)->ConstructRW(&component);
-					assert(ch != 0);
+					if(ch == nullptr)
+					{
+						continue; // a read-only channel
+					}
 					channels.push_back(ch);
 					count++;
 				}
-- 
2.43.0


From 5d730f5a1f320ab7b7da2bbff0fd305b3f10e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 058/112] fix: setting one plane of a corrector winding keeps
 the other

---
 Merlin++/CorrectorWinding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CorrectorWinding.cpp b/Merlin++/CorrectorWinding.cpp
index 6c71ff0..cecd76d 100644
--- a/Merlin++/CorrectorWinding.cpp
+++ b/Merlin++/CorrectorWinding.cpp
@@ -20,7 +20,7 @@ void CorrectorWinding::SetBx(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, 0, value / l);
+	(*magnet).GetField().SetComponent(0, (*magnet).GetField().GetComponent(0).real(), value / l);
 }
 
 void CorrectorWinding::SetBy(double value)
@@ -31,7 +31,7 @@ void CorrectorWinding::SetBy(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, value / l, 0);
+	(*magnet).GetField().SetComponent(0, value / l, (*magnet).GetField().GetComponent(0).imag());
 }
 
 double CorrectorWinding::GetBx() const
-- 
2.43.0


From 9eda90c1056c8d91fd3b317a37207e11f8b60e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 059/112] fix: a new monitor is not reflected

The flag was not initialised.
---
 Merlin++/Monitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Monitor.cpp b/Merlin++/Monitor.cpp
index 811bb6a..c5f357b 100644
--- a/Merlin++/Monitor.cpp
+++ b/Merlin++/Monitor.cpp
@@ -13,7 +13,7 @@ bool Monitor::all_inactive = false;
 const int Monitor::ID = UniqueIndex();
 
 Monitor::Monitor(const string& id, double len, double mpt) :
-	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), active(true)
+	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), reflected(false), active(true)
 {
 }
 
-- 
2.43.0


From 704dd5cbff4cd1cab9059d58652d6a5c39858f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 060/112] fix: the size along the wire of a profile monitor is
 the rms of that coordinate

It was a linear combination of the sizes in x and y.
---
 Merlin++/RMSProfileMonitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/RMSProfileMonitor.cpp b/Merlin++/RMSProfileMonitor.cpp
index 5ed5645..2f783be 100644
--- a/Merlin++/RMSProfileMonitor.cpp
+++ b/Merlin++/RMSProfileMonitor.cpp
@@ -61,7 +61,7 @@ void RMSProfileMonitor::MakeMeasurement(const Bunch& aBunch)
 			double cosu = cos(uangle);
 			double sinu = sin(uangle);
 			mdat.u0.value = cosu * profile.mean(0) - sinu * profile.mean(1);
-			mdat.urms.value = cosu * profile.std(0) - sinu * profile.std(1);
+			mdat.urms.value = sqrt(cosu * cosu * profile.var(0) + sinu * sinu * profile.var(1) - 2 * cosu * sinu * profile.sig(0, 1));
 		}
 
 		mdat.u0.error = res_u;
-- 
2.43.0


From 57b0b5b1b2d7fbccaf6c1df951557c2cb295ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 061/112] fix: reading a multipole component does not change
 the field

Asking for a component beyond the expansion made it longer, and magnets with
a longer expansion are tracked differently.
---
 Merlin++/MultipoleField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 70600c0..07e8fb8 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -166,7 +166,7 @@ Complex MultipoleField::GetCoefficient(size_t np, double r0) const
 {
 	if(np + 1 > expansion.size())
 	{
-		const_cast<MultipoleField&>(*this).expansion.resize(np + 1, Complex(0, 0));
+		return Complex(0, 0);
 	}
 
 	return expansion[np] * pow(r0, np);
-- 
2.43.0


From bf36c4345de826b04ec9201853ae574ae09ea2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:34 +0000
Subject: [PATCH 062/112] fix: BPM channels of a model do not read the buffers
 of another

The buffers were kept by the address of the BPM for all models together, so
a BPM at the address of a deleted one got a buffer with the old name and
readings to which nothing was sent.
---
 Merlin++/BPMChannelCtor.cpp | 2 --
 Merlin++/BPMChannelCtor.h   | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/Merlin++/BPMChannelCtor.cpp b/Merlin++/BPMChannelCtor.cpp
index 508b597..bf2167f 100644
--- a/Merlin++/BPMChannelCtor.cpp
+++ b/Merlin++/BPMChannelCtor.cpp
@@ -10,8 +10,6 @@
 #include "BPMChannelCtor.h"
 #include "BPMChannel.h"
 
-BPMDataBufferServer BPMChannelCtor::theServer;
-
 BPMChannelCtor::BPMChannelCtor(char xy) :
 	ChannelCtor("BPM", std::string(1, xy))
 {
diff --git a/Merlin++/BPMChannelCtor.h b/Merlin++/BPMChannelCtor.h
index 4e203f9..a76103a 100644
--- a/Merlin++/BPMChannelCtor.h
+++ b/Merlin++/BPMChannelCtor.h
@@ -42,7 +42,7 @@ public:
 	 */
 	virtual RWChannel* ConstructRW(ModelElement* anElement);
 
-	static BPMDataBufferServer theServer;
+	BPMDataBufferServer theServer;
 };
 
 #endif
-- 
2.43.0


From f7c8688a273b04ae72d93364c20265697c853391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:11 +0000
Subject: [PATCH 063/112] fix: an SVD of a matrix with fewer rows than columns
 can be made and solved

---
 Merlin++/TLASimp.h | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 49d6d94..12644a5 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -119,24 +119,15 @@ public:
 	 */
 	Vector<T> operator()(const Vector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	Vector<T> operator()(const SubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	Vector<T> operator()(const ConstSubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	const std::vector<bool>& wflags() const
 	{
@@ -163,6 +154,22 @@ private:
 
 	void Init(const Matrix<T>& M, T threshold);
 
+	// The right hand side has as many elements as the original
+	// matrix has rows: zeros are added for the rows added to it.
+	template<class V>
+	Vector<T> Solve(const V& rhs) const
+	{
+		Vector<T> x(w.size());
+		Vector<T> z(rhs);
+		z *= wts;
+		Vector<T> y(T(0), u.nrows());
+		for(Subscript i = 0; i < z.size(); i++)
+		{
+			y[i] = z[i];
+		}
+		return SVDsolve(u, w, v, y, x);
+	}
+
 	Matrix<T> u, v;
 	Vector<T> w;
 	Vector<T> wts;
@@ -201,7 +208,10 @@ void SVDMatrix<T>::Init(const Matrix<T>& M, T threshold)
 	// adjust for weights: multiply each column vector by wts
 	for(Subscript ir = 0; ir < u.ncols(); ir++)
 	{
-		u.column(ir) *= wts;
+		for(Subscript i = 0; i < wts.size(); i++)
+		{
+			u(i, ir) *= wts[i];
+		}
 	}
 
 	w.redim(u.ncols());
-- 
2.43.0


From fffcd58ef1fde86ceeb8270256bfcc6dfadaff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:11 +0000
Subject: [PATCH 064/112] fix: the SVD routine takes at least as many rows as
 columns

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 12644a5..fcb40d2 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -429,7 +429,7 @@ template<class T> inline T SIGN(T a, T b)
 template<class T>
 void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 {
-	assert(M.nrows() <= M.ncols());
+	assert(M.nrows() >= M.ncols());
 	const int rmax = M.nrows() - 1;
 	const int cmax = M.ncols() - 1;
 
-- 
2.43.0


From 288adcbb19ea591cfe376c79f43fc470b4198934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:11 +0000
Subject: [PATCH 065/112] fix: a refused response matrix leaves the feedback
 with the one it had

---
 Merlin++/LinearFBSystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/LinearFBSystem.cpp b/Merlin++/LinearFBSystem.cpp
index abbb515..4419731 100644
--- a/Merlin++/LinearFBSystem.cpp
+++ b/Merlin++/LinearFBSystem.cpp
@@ -79,11 +79,12 @@ void LinearFBSystem::RestoreActuators()
 void LinearFBSystem::SetResponseMatrix(const RealMatrix& M)
 {
 	assert(signals.Size() == M.nrows() && actuators.Size() == M.ncols());
+	SVDMatrix<double>* newMi = new SVDMatrix<double>(M);
 	if(Mi != nullptr)
 	{
 		delete Mi;
 	}
-	Mi = new SVDMatrix<double>(M);
+	Mi = newMi;
 }
 
 void LinearFBSystem::SetGain(double g)
-- 
2.43.0


From 12f8681ebdee16827515e32e8a866694da0369d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 066/112] fix: the SVD of a matrix with a vanishing singular
 value cancels the whole superdiagonal

---
 Merlin++/TLASimp.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index fcb40d2..bfdfb8f 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -575,6 +575,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				for(int i = L; i <= k; i++)
 				{
 					f0 = f1 * work[i];
+					work[i] = f2 * work[i];
 					if(!fequal(fabs(f0) + F2, F2))
 					{
 						F1 = V[i];
@@ -588,6 +589,10 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 						M.column(remember) = Y * f2 + Z * f1;
 						M.column(i) = Z * f2 - Y * f1;
 					}
+					else
+					{
+						break;
+					}
 				}
 			}
 			T q1 = V[k];
-- 
2.43.0


From 823b3d06be6833c9d561e482fc0ceaf762220724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 067/112] fix: moments do not add to those of an earlier call

---
 Merlin++/ParticleBunch.cpp | 2 ++
 Merlin++/SMPBunch.cpp      | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index e4bf2c9..9a9bc6f 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -227,6 +227,7 @@ double ParticleBunch::GetTotalCharge() const
 PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	for_each(begin(), end(), APSV1<PSmoments>(sigma, size()));
 	for_each(begin(), end(), PSVVAR1(sigma, size()));
 	return sigma;
@@ -235,6 +236,7 @@ PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 PSmoments2D& ParticleBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
 	Point2D X = for_each(begin(), end(), APSV2(u, v, size())).X;
+	sigma.Zero();
 	sigma[0] = X.x;
 	sigma[1] = X.y;
 	for_each(begin(), end(), PSVVAR2(u, v, size(), sigma));
diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 07868b5..343f219 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -79,6 +79,7 @@ double SMPBunch::GetTotalCharge() const
 PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	int i, j;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
@@ -104,6 +105,8 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 
 PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
+	sigma.Zero();
+	sigma[0] = sigma[1] = 0;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		const SliceMacroParticle& x = (*p);
-- 
2.43.0


From d1b09378cc4b734f1371f2dd0a6231b8bdb167b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 068/112] fix: SetCentroid moves the centroid onto the first
 particle

---
 Merlin++/ParticleBunch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 9a9bc6f..0706050 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -390,6 +390,11 @@ void ParticleBunch::SetCentroid()
 	PSvector x;
 	GetCentroid(x);
 	x -= FirstParticle();
+	if(size() > 1)
+	{
+		// the first particle stays, so the others have to move further
+		x *= double(size()) / double(size() - 1);
+	}
 	for(PSvectorArray::iterator p = begin() + 1; p != end(); p++)
 	{
 		p->x() -= x.x();
-- 
2.43.0


From 3943c30a5a5bc101e92bc564c28536d630db0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 069/112] fix: length and energy spread of a beam are rms
 values

---
 Merlin++/ParticleBunch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 0706050..01d65ef 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -190,8 +190,8 @@ ParticleBunch::ParticleBunch(size_t np, const ParticleDistributionGenerator& gen
 		p.xp() *= sqrt(beam.emit_x);
 		p.y() *= sqrt(beam.emit_y);
 		p.yp() *= sqrt(beam.emit_y);
-		p.dp() *= sqrt(beam.sig_dp);
-		p.ct() *= sqrt(beam.sig_z);
+		p.dp() *= beam.sig_dp;
+		p.ct() *= beam.sig_z;
 
 		// Apply Courant-Snyder
 		M.Apply(p);
-- 
2.43.0


From 687d1decc3a879e95bbc88625f9015a70f85320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 070/112] fix: swapping with another bunch exchanges the
 particles

---
 Merlin++/ParticleBunch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.h b/Merlin++/ParticleBunch.h
index fef59a9..eff2509 100644
--- a/Merlin++/ParticleBunch.h
+++ b/Merlin++/ParticleBunch.h
@@ -184,7 +184,7 @@ public:
 	/**
 	 * Swaps particles with another ParticleBunch
 	 */
-	void swap(ParticleBunch newbunch);
+	void swap(ParticleBunch& newbunch);
 
 	/**
 	 * Init flag
@@ -316,7 +316,7 @@ protected:
 	PSvectorArray pArray;
 
 };
-inline void ParticleBunch::swap(ParticleBunch newbunch)
+inline void ParticleBunch::swap(ParticleBunch& newbunch)
 {
 	//cout << "Before " << size() << "\t" << newbunch.size() << endl;
 	pArray.swap(newbunch.pArray);
-- 
2.43.0


From 356585ed977abb39a7584c94d80298b0770eee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 071/112] fix: the id of a particle is written apart from its
 last coordinate

---
 Merlin++/PSvector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PSvector.cpp b/Merlin++/PSvector.cpp
index 36d8beb..16e64ba 100644
--- a/Merlin++/PSvector.cpp
+++ b/Merlin++/PSvector.cpp
@@ -17,7 +17,7 @@ ostream& operator<<(ostream& os, const PSvector& v)
 		os << setw(24) << scientific << setprecision(10) << v[i];
 	}
 
-	os << v.pid;
+	os << ' ' << v.pid;
 	return os << '\n';
 }
 
-- 
2.43.0


From da1a2a05dc06ca50de2dae839fd3b646dfe6d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 072/112] fix: particles read from a bunch file do not have
 arbitrary ids

---
 Merlin++/PSvector.h        | 3 ++-
 Merlin++/ParticleBunch.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/PSvector.h b/Merlin++/PSvector.h
index ed4074b..6afb31b 100644
--- a/Merlin++/PSvector.h
+++ b/Merlin++/PSvector.h
@@ -36,7 +36,8 @@ public:
 	{
 	}
 
-	explicit PSvector(double x)
+	explicit PSvector(double x) :
+		pid(0)
 	{
 		std::fill(v, v + PS_LENGTH, x);
 	}
diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 01d65ef..733d5f3 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -367,7 +367,7 @@ void ParticleBunch::OutputIndexParticle(std::ostream& os, int index) const
 void ParticleBunch::Input(double Q, std::istream& is)
 {
 	double reftime, refmom;
-	PSvector p;
+	PSvector p(0);
 	string line;
 	while(getline(is, line))
 	{
-- 
2.43.0


From d7792a4e6258734fb0dcb7ed5cfdc5a4e777f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 073/112] fix: slices of a bunch end at the given range and
 their slope uses the filter alone

---
 Merlin++/ParticleBunchUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b2e1d08..ac6dbdb 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -81,7 +81,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 
 	for(n = 0; n < nbins; n++)
 	{
-		z += dz;
+		z = n + 1 < nbins ? zmin + (n + 1) * dz : zmax;
 		while(p != bunch.end() && p->ct() < z)
 		{
 			total++;
@@ -136,7 +136,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 		fbins[n] = hbins[n] * a;
 		if(c)
 			//for(m=std::max(0,int(n)-w); m<=std::max(nbins,int(n)+w); m++)// ERROR! m can be set to nbins -> out of range!
-			for(m = std::max(0, int(n) - w); m < std::max(nbins, size_t(n) + w); m++)   // This needs to be checked!
+			for(m = std::max(0, int(n) - w); m < std::min(nbins, size_t(n) + w + 1); m++)
 			{
 				fpbins[n] += hbins[m] * (*c)[m - n + w] * a;
 			}
-- 
2.43.0


From 5e38d02d264592b9e4053b4efc69e6c4f689a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 074/112] fix: the distribution of a bunch has all its bins and
 counts their upper limit

---
 Merlin++/ParticleBunchUtilities.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index ac6dbdb..46ae7b4 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -160,7 +160,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, double umax, double du,
 	vector<double>& bins, bool normalise, bool truncate)
 {
-	size_t nb = (umax - umin) / du;
+	size_t nb = (umax - umin) / du + 0.5; // du may not divide the range exactly
 	bins = vector<double>(nb, 0.0);
 	size_t np0 = bunch.size();
 
@@ -177,13 +177,16 @@ size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, d
 			if(truncate)
 			{
 				p = bunch.erase(p);
-				p--;
+				continue;
 			}
 		}
 		else
 		{
 			size_t n = (uval - umin) / du;
-			assert(n < nb);
+			if(n >= nb)
+			{
+				n = nb - 1;
+			}
 			bins[n]++;
 			total++;
 		}
-- 
2.43.0


From 9573086fc852f4b8fe7ce350aa32821bf6cfeb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 075/112] fix: the sigma matrix of a beam has its centroid and
 nothing from before

---
 Merlin++/NormalTransform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 0961fc9..f8dec63 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -129,6 +129,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 {
 	RMap R(NormalTransform(t));
 	S.zero();
+	S.Zero();
 	S(0, 0) = t.emit_x;
 	S(1, 1) = t.emit_x;
 	S(2, 2) = t.emit_y;
@@ -141,6 +142,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 	S[1] = t.xp0;
 	S[2] = t.y0;
 	S[3] = t.yp0;
+	S[4] = t.ct0;
 
 	return S;
 }
-- 
2.43.0


From afd318d6f61be1205bbf879c3928c09ca7bd8ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 076/112] fix: the coupling of a beam is found from its sigma
 matrix

---
 Merlin++/NormalTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index f8dec63..bb202c0 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -199,7 +199,7 @@ BeamData& SigmaMatrixToBeamData(const PSmoments& S0, BeamData& t)
 	}
 	else
 	{
-		double sinPhi = sqrt(1 - C(0, 0));
+		double sinPhi = sqrt(1 - C(0, 0) * C(0, 0));
 		double phi = atan2(sinPhi, C(0, 0));
 		z = sinPhi != 0 ? phi / sinPhi : 0;
 	}
-- 
2.43.0


From e9920d503e8a14d52101cfde831dfc15864b03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 077/112] fix: a beam without coupling is not decoupled

---
 Merlin++/NormalTransform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index bb202c0..4446987 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -154,6 +154,18 @@ RealMatrix DecoupleSigma(SigmaMatrix& S)
 	RealVector c(1.0, 4); // (a,b,c,d)
 	RealMatrix R = IdentityMatrix(6);
 
+	// without coupling there is nothing to remove (and d vanishes for round beams)
+	bool coupled = false;
+	for(int i = 0; i < 2; i++)
+		for(int j = 2; j < 4; j++)
+		{
+			coupled = coupled || fabs(S(i, j)) > 1.0e-12 * sqrt(S(i, i) * S(j, j));
+		}
+	if(!coupled)
+	{
+		return R;
+	}
+
 	do
 	{
 		double d = S(2, 2) * S(3, 3) - S(2, 3) * S(2, 3) - (S(0, 0) * S(1, 1) - S(0, 1) * S(0, 1));
-- 
2.43.0


From e6213f673aeafc943fe534156ca191c97ef0781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 078/112] fix: the adjustment of the reference keeps momentum
 and time of macroparticles

---
 Merlin++/SMPBunch.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 343f219..230cb9f 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -159,7 +159,7 @@ double SMPBunch::AdjustRefMomentumToMean()
 	double ddp = dp0 / Qt + 1.0;
 	for(iterator p = begin(); p != end(); p++)
 	{
-		p->dp() /= ddp;
+		p->dp() = (p->dp() + 1.0) / ddp - 1.0;
 	}
 	SetReferenceMomentum(GetReferenceMomentum() * ddp);
 	return GetReferenceMomentum();
@@ -172,7 +172,12 @@ double SMPBunch::AdjustRefTimeToMean()
 	{
 		ct += (p->ct()) * (p->Q());
 	}
-	IncrReferenceTime(ct / Qt);
+	ct /= Qt;
+	for(iterator p = begin(); p != end(); p++)
+	{
+		p->ct() -= ct;
+	}
+	IncrReferenceTime(-ct);
 	return GetReferenceTime();
 }
 
-- 
2.43.0


From 02a649f666521c3c2488fd69c817fcf6da3cc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 079/112] fix: LU decomposition makes room for its pivots

---
 Merlin++/TLASimp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index bfdfb8f..89b076e 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -249,6 +249,7 @@ void LUfactor(Matrix<T>& M, std::vector<int>& pivot, T& sign)
 	const int n = M.ncols();
 
 	std::vector<T> scale(n);
+	pivot.resize(n);
 
 	sign = 1.0;
 	for(int i = 0; i < n; i++)
-- 
2.43.0


From 5240f9d56eaaeeefd87e4f375da4b59b5291f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 080/112] fix: the conversion of macroparticles is defined as
 declared

---
 Merlin++/SMPBunchConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPBunchConverter.cpp b/Merlin++/SMPBunchConverter.cpp
index bfab34c..ba57c64 100644
--- a/Merlin++/SMPBunchConverter.cpp
+++ b/Merlin++/SMPBunchConverter.cpp
@@ -29,10 +29,10 @@ using namespace SMPTracking;
  * DK 1.4.2006
  */
 
-ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, size_t N, bool adjust)
+ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, int N, bool adjust)
 {
 
-	if(N < SB->Size())
+	if(N < int(SB->Size()))
 	{
 		cout << "SMPBunchConverter: Warning, you asked for a low number of particles!" << endl;
 		//return new ParticleBunch(0);
-- 
2.43.0


From e99b05c3233dc9e7011f6bdb372b39d8de629c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 081/112] fix: halo filters without a limit or orbit have none

---
 Merlin++/BunchFilter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/BunchFilter.h b/Merlin++/BunchFilter.h
index f0a8500..e4935b6 100644
--- a/Merlin++/BunchFilter.h
+++ b/Merlin++/BunchFilter.h
@@ -40,8 +40,8 @@ public:
 	void SetHorizontalOrbit(double);
 
 private:
-	double limit;
-	double orbit;
+	double limit = 0;
+	double orbit = 0;
 };
 
 class VerticalHaloParticleBunchFilter: public ParticleBunchFilter
@@ -57,7 +57,7 @@ public:
 	void SetVerticalLimit(double);
 
 private:
-	double limit;
+	double limit = 0;
 };
 
 }   //End particle tracking namespace
-- 
2.43.0


From ece741d9eed30c64b7cc5e748188b89eebfd2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:02 +0000
Subject: [PATCH 082/112] fix: the coupling found from a sigma matrix is that
 of the normal transform

---
 Merlin++/NormalTransform.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 4446987..1072b71 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -201,7 +201,6 @@ BeamData& SigmaMatrixToBeamData(const PSmoments& S0, BeamData& t)
 	}
 
 	// Remove the cross-plane coupling
-	// and calculate the coupling parameters
 	RealMatrix C = DecoupleSigma(S);
 	double z;
 	if(C(0, 0) > 1.0)
@@ -215,10 +214,6 @@ BeamData& SigmaMatrixToBeamData(const PSmoments& S0, BeamData& t)
 		double phi = atan2(sinPhi, C(0, 0));
 		z = sinPhi != 0 ? phi / sinPhi : 0;
 	}
-	t.c_xy = C(0, 2) * z;
-	t.c_xyp = C(0, 3) * z;
-	t.c_xpy = C(1, 2) * z;
-	t.c_xpyp = C(1, 3) * z;
 
 	t.emit_x = ProjectedEmittance(S, ps_X, ps_XP);
 	t.emit_y = ProjectedEmittance(S, ps_Y, ps_YP);
@@ -233,6 +228,17 @@ BeamData& SigmaMatrixToBeamData(const PSmoments& S0, BeamData& t)
 	RealMatrix B = InverseBetaTransform(t.beta_x, t.beta_y, t.alpha_x, t.alpha_y);
 	RMap(B).Apply(S);
 
+	// The coupling parameters are those of the normalised coordinates,
+	// of the inverse of what removes the coupling
+	if(z != 0)
+	{
+		C = B * C * BetaMatrix(t.beta_x, t.beta_y) * AlphaMatrix(t.alpha_x, t.alpha_y);
+		t.c_xy = -C(0, 2) * z;
+		t.c_xyp = -C(0, 3) * z;
+		t.c_xpy = C(1, 2) * z;
+		t.c_xpyp = C(1, 3) * z;
+	}
+
 	t.sig_z = S0.std(ps_CT);
 	t.sig_dp = S0.std(ps_DP);
 
-- 
2.43.0


From 37d23b3fe3a7fc74554ba2d8c2ce5a7456aaec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:05 +0000
Subject: [PATCH 083/112] fix: local random generators follow a change of the
 seed

---
 Merlin++/RandomNG.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 7b6dbf7..f527171 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -41,6 +41,11 @@ void RandomNG::reset()
 {
 	std::seed_seq ss(master_seed.begin(), master_seed.end());
 	generator.reset(new std::mt19937_64{ss});
+	// the local generators follow the seed (references to them stay valid)
+	for(auto& local : generator_store)
+	{
+		resetLocalGenerator(local.first);
+	}
 }
 
 void RandomNG::reset(std::uint32_t iseed)
-- 
2.43.0


From 96ee8861a942a0de0b7a172ccf9fb10ef23521a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:05 +0000
Subject: [PATCH 084/112] fix: the photon spectrum uses its random generator
 and not a copy of it

---
 Merlin++/PhotonSpectrumGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhotonSpectrumGen.cpp b/Merlin++/PhotonSpectrumGen.cpp
index 882b8e2..1833e8d 100644
--- a/Merlin++/PhotonSpectrumGen.cpp
+++ b/Merlin++/PhotonSpectrumGen.cpp
@@ -37,7 +37,7 @@ namespace
 
 double Ran1()
 {
-	static auto gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
+	static auto& gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
 	static auto dist = std::uniform_real_distribution<>{0.0, 1.0};
 	return dist(gen);
 }
-- 
2.43.0


From f55ed051e2457f0a499ffdabc32f9b3f24ca5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 085/112] fix: ground motion with a support at the reference
 point is not NaN

---
 Merlin++/ATL2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 8ee3b38..96a8084 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -147,7 +147,8 @@ double ATL2D::DoStep(double dt)
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-		if(at * evals[n])
+		// eigenvalues that vanish may come out slightly negative
+		if(at * evals[n] > 0)
 			yy(n) = normal_distribution<>{0, sqrt(at * evals[n])} (*rg);
 	}
 
-- 
2.43.0


From 1ee1ebccb7160ef9d64198c8b04cdf1ca016b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 086/112] fix: the recorded eigenvectors of the ground motion
 are complete

---
 Merlin++/ATL2D.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 96a8084..05fbaa4 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -103,10 +103,10 @@ ATL2D::ATL2D(double anA, const AcceleratorSupportList& supports, const Point2D r
 	{
 		double element;
 		for(row = 0; row < n; row++)
-			for(col = row; col < n; col++)
+			for(col = 0; col < n; col++)
 			{
 				(*evecTFile) >> element;
-				evecsT(row, col) = evecsT(col, row) = element;
+				evecsT(row, col) = element;
 			}
 
 		for(row = 0; row < n; row++)
@@ -225,9 +225,9 @@ void ATL2D::RecordEigenSystem(ofstream* evecTFile, ofstream* evalFile)
 
 	for(row = 0; row < n; row++)
 	{
-		for(col = row; col < n; col++)
+		for(col = 0; col < n; col++)
 		{
-			(*evecTFile) << std::setw(14) << evecsT(row, col);
+			(*evecTFile) << " " << std::setw(14) << evecsT(row, col);
 		}
 		(*evecTFile) << endl;
 	}
-- 
2.43.0


From 785bb8171ad934f4c08449d652fe4ba73ce32dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 087/112] fix: ground motion with vibration refuses increments,
 not to leave them

---
 Merlin++/ATL2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 05fbaa4..4f140a7 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -198,7 +198,7 @@ void ATL2D::ResetRandomSeed()
 
 bool ATL2D::SetATLMode(const ATLMode mode)
 {
-	if((atlMode == increment) && (vv > 0))
+	if((mode == increment) && (vv > 0))
 	{
 		return false;
 	}
-- 
2.43.0


From 9414fe55f2d7d2879b362fd9bf9751b9e692bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:17 +0000
Subject: [PATCH 088/112] fix: ground motion with vibration may be turned to
 increments, as its test does (reverts 785bb81)

---
 Merlin++/ATL2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 4f140a7..05fbaa4 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -198,7 +198,7 @@ void ATL2D::ResetRandomSeed()
 
 bool ATL2D::SetATLMode(const ATLMode mode)
 {
-	if((mode == increment) && (vv > 0))
+	if((atlMode == increment) && (vv > 0))
 	{
 		return false;
 	}
-- 
2.43.0


From 14e711430bae56140978a213e11020e87f461ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:33 +0000
Subject: [PATCH 089/112] fix: rotated multipoles are tracked with the sign of
 their own field

The rotation to the axes in which a quadrupole or sextupole is normal went
the other way, so that a thick skew magnet acted with the sign opposite to
its field (and to the same magnet as a thin kick), and the kicks of other
multipoles within it were not turned into these axes.
---
 Merlin++/TransportIntegrators.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 3a316fd..135909a 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -57,21 +57,22 @@ namespace
 struct MultipoleKick
 {
 	const MultipoleField& field;
+	Complex rot;
 	Complex scale;
 
+	// Kick in axes rotated by phi about z
 	MultipoleKick(const MultipoleField& f, double len, double P0, double q, double phi = 0) :
-		field(f)
+		field(f), rot(cos(phi), sin(phi))
 	{
 		//cout <<"apply multipolekick"<<endl;
-		scale = q * len * eV * SpeedOfLight / P0 * Complex(cos(phi), sin(phi));
+		scale = q * len * eV * SpeedOfLight / P0 * rot;
 	}
 
 	void operator()(PSvector& v)
 	{
-		double x = v.x();
-		double y = v.y();
+		const Complex z = rot * Complex(v.x(), v.y());
 		double dp = v.dp();
-		Complex F = scale * field.GetField2D(x, y) / (1 + dp);
+		Complex F = scale * field.GetField2D(z.real(), z.imag()) / (1 + dp);
 		v.xp() += -F.real();
 		v.yp() += F.imag();
 	}
@@ -388,7 +389,7 @@ void RectMultipoleCI::TrackStep(double ds)
 
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, -phi);
+			RotateBunchAboutZ(*currentBunch, phi);
 		}
 
 		RTMap* M = QuadrupoleTM(len, K1);
@@ -405,7 +406,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		delete M;
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, phi);
+			RotateBunchAboutZ(*currentBunch, -phi);
 		}
 	}
 	else if(cK2 != 0.0)   // sextupole R+T matrix with thin-lens kicks for other multipoles
@@ -425,7 +426,7 @@ void RectMultipoleCI::TrackStep(double ds)
 
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, -phi);
+			RotateBunchAboutZ(*currentBunch, phi);
 		}
 
 		RTMap* M = SextupoleTM(len, K2);
@@ -442,7 +443,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		delete M;
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, phi);
+			RotateBunchAboutZ(*currentBunch, -phi);
 		}
 	}
 	else   // drift with a kick in the middle
-- 
2.43.0


From c8973a7516447728eba2b3bc6f604f7dd5fd8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 090/112] fix: the entrance of a sector bend without pole faces
 of its own is an entrance

---
 Merlin++/StdIntegrators.h         | 2 +-
 Merlin++/TransportIntegrators.cpp | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/Merlin++/StdIntegrators.h b/Merlin++/StdIntegrators.h
index c7e134e..6ea037a 100644
--- a/Merlin++/StdIntegrators.h
+++ b/Merlin++/StdIntegrators.h
@@ -68,7 +68,7 @@ public:
 	void TrackEntrance();
 	void TrackExit();
 protected:
-	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf);
+	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool entrance);
 };
 
 DECL_INTG_SET(ParticleComponentTracker, StdISet)
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 135909a..f9682cb 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -301,21 +301,21 @@ void SectorBendCI::TrackEntrance()
 	{
 		RotateBunchAboutZ(*currentBunch, -tilt);
 	}
-	ApplyPoleFaceRotation(pfi.entrance);
+	ApplyPoleFaceRotation(pfi.entrance, true);
 }
 
 void SectorBendCI::TrackExit()
 {
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	double tilt = (*currentComponent).GetGeometry().GetTilt();
-	ApplyPoleFaceRotation(pfi.exit);
+	ApplyPoleFaceRotation(pfi.exit, false);
 	if(tilt != 0)
 	{
 		RotateBunchAboutZ(*currentBunch, tilt);
 	}
 }
 
-void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
+void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool entrance)
 {
 #define _PFV(p, v) !(p) ? 0 : p->v;
 
@@ -328,9 +328,8 @@ void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
 	double c = 0; // currently not implemented
 	double hg = _PFV(pf, hgap);
 	double fint = _PFV(pf, fint);
-	double ent = _PFV(pf, type);
 
-	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, ent);
+	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, entrance);
 	ApplyMapToBunch(*currentBunch, M);
 	delete M;
 }
-- 
2.43.0


From bdc8de3e4c49791a8cd9398f0a6279f3b98e2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:57 +0000
Subject: [PATCH 091/112] fix: second-order position and path length in
 combined-function sector bends

---
 Merlin++/BasicTransportMaps.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 80a5d06..4c5d8cf 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -373,6 +373,7 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	double ky = sqrt(fabs(ky2));
 
 	double sngx = (kx2 < 0) ? -1 : 1;
+	double sngy = (ky2 < 0) ? -1 : 1;
 
 	double b1 = pow(kx, 2);
 	double b2 = 1 / b1;
@@ -396,11 +397,11 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	double P5 = 2 * h * pow(kx, -4) * pow(b9, 4);
 	double P6 = -sngx * (b7 * (-2 * kx * s + b8)) / 4.;
 	double P7 = (pow(ky, -2) * pow(b11, 2)) / 2.;
-	double P8 = -(pow(ky, -3) * (-2 * ky * s + b8)) / 4.;
+	double P8 = -sngy * (pow(ky, -3) * (-2 * ky * s + b12)) / 4.;
 
 	// Matrix terms
 	rtMap(1, 1, 1) = (a11 * a13 * a7) / 3. + (a1 * a6 * h) / 6.;
-	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3.;
+	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3. + h * sx;
 	rtMap(1, 1, 6) = a18 + 2 * a11 * a19 * a20 * (a21 + (a22 + a5) / 3.) - (a14 * a6) / 3.;
 	rtMap(1, 2, 2) = (a11 * a20 * a6 * a7) / 3. + (a13 * h) / 6.;
 	rtMap(1, 2, 6) = (a14 * a17 * a20 * a24) / 2. + (dx * h * sx) / 3. + 2 * a11 * a19 * a20 * ((a20 * a24) / 2. - (a2
@@ -435,20 +436,19 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	rtMap(4, 3, 6) = -(a14 * a28 * a31 * a75) - cyp * dx * h + (a28 * (cy * s + sy)) / 2. + 2 * a19 * a20 * a47 * ((cy
 		* s) / 2. + sy / 2. + a31 * (-(a68 * cy * sx) + a28 * a54 * sy));
 	rtMap(4, 4, 6) = a63 + 2 * a19 * a20 * a47 * (a64 - a31 * a78) + a14 * a85 - dx * h * syp;
-	rtMap(5, 1, 1) = (-2 * a90 * P2 + a95 * h * P6 + 3 * s * pow(cxp, 2)) / 6.;
-	rtMap(5, 1, 2) = (a95 * P5 + 3 * cxp * s * sxp) / 3.;
-	rtMap(5, 1, 6) = (a20 * (6 * a1 * cxp * dxp * s + 4 * a90 * h * P2 + 3 * a14 * a98 * P4 + 4 * a25 * P6 + 2 * a1
-		* a7 * P6 + 4 * a14 * K2 * P6 - 8 * a25 * n * P6)) / 6.;
-	rtMap(5, 2, 2) = (a20 * ((a101 * a7 + a99 - 4 * K2) * P2 + a106 * h * P6 + 3 * a1 * s * pow(sxp, 2))) / 6.;
-	rtMap(5, 2, 6) = (a27 * (3 * a108 * a14 * P1 + 3 * a14 * a98 * P3 + 2 * a1 * (a106 * h * P5 + 3 * a1 * dxp * s
-		* sxp))) / 6.;
-	rtMap(5, 3, 3) = (2 * a28 * h * K2 * P8 + P2 * (a1 * a28 * h - 2 * a1 * K2 + 4 * a28 * K2 - 4 * h * K1 * K1) - a30
-		* s * pow(cyp + syp, 2)) / (-2 * a1 + 8 * a28);
-	rtMap(5, 3, 4) = 2 * a31 * h * K2 * (-P3 + P6);
-	rtMap(5, 4, 4) = (a31 * (-((a30 * h + 4 * K2) * P2) + 2 * h * K2 * P8)) / 2.;
-	rtMap(5, 6, 6) = (a27 * (2 * h * (a101 * a19 - 3 * a26 - 4 * h * K2 + a1 * a14 * (7 - 3 * n)) * P2 + 3 * a108 * a7
-		* P4 - 2 * a109 * P6 - a1 * a19 * P6 - 2 * a7 * K2 * P6 + 4 * a109 * n * P6 + 3 * a26 * s \
-		* pow(dxp, 2))) / 6.;
+	// ct is minus the path length
+	rtMap(5, 1, 1) = -(-2 * a90 * P2 + a95 * h * P6) / 6. - a26 * P6 / 2.;
+	rtMap(5, 1, 2) = -a95 * P5 / 3. + a1 * a4 / 2. - h * dx;
+	rtMap(5, 1, 6) = -(a20 * (4 * a90 * h * P2 + 3 * a14 * a98 * P4 + 4 * a25 * P6 + 2 * a1 * a7 * P6 + 4 * a14 * K2
+		* P6 - 8 * a25 * n * P6)) / 6. + a1 * h * P6;
+	rtMap(5, 2, 2) = -(a20 * ((a101 * a7 + a99 - 4 * K2) * P2 + a106 * h * P6)) / 6. - (s - a1 * P6) / 2.;
+	rtMap(5, 2, 6) = -(a27 * (3 * a108 * a14 * P1 + 3 * a14 * a98 * P3 + 2 * a1 * a106 * h * P5)) / 6. - h * a4 / 2.;
+	rtMap(5, 3, 3) = -(2 * a28 * h * K2 * P8 + P2 * (a1 * a28 * h - 2 * a1 * K2 + 4 * a28 * K2 - 4 * h * K1 * K1))
+		/ (-2 * a1 + 8 * a28) - K1 * K1 * P8 / 2.;
+	rtMap(5, 3, 4) = -2 * a31 * h * K2 * (-P3 + P7) - K1 * P7;
+	rtMap(5, 4, 4) = -(a31 * (-((a30 * h + 4 * K2) * P2) + 2 * h * K2 * P8)) / 2. - (s + K1 * P8) / 2.;
+	rtMap(5, 6, 6) = -(a27 * (2 * h * (a101 * a19 - 3 * a26 - 4 * h * K2 + a1 * a14 * (7 - 3 * n)) * P2 + 3 * a108 * a7
+		* P4 - 2 * a109 * P6 - a1 * a19 * P6 - 2 * a7 * K2 * P6 + 4 * a109 * n * P6)) / 6. - a14 * P6 / 2.;
 
 	return rtm;
 }
-- 
2.43.0


From ef838f2d532a9e4140f5fa3c6043bdc35923c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:18 +0000
Subject: [PATCH 092/112] fix: pole faces of bends with a gradient

---
 Merlin++/BasicTransportMaps.cpp   | 8 ++++----
 Merlin++/TransportIntegrators.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 4c5d8cf..3db8f6c 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -510,14 +510,14 @@ RTMap* PoleFaceTM(double h, double K1, double beta, double c, double fint, doubl
 	if(entrance == true) // do entrance
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1);    //old
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)); //old
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
+		rtMap(4, 1, 3) = -((h * c * a8) + 2 * (K1 * a1)); //old
 	}
 	else    //do exit
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1) - pow((h * a1), 2) * a1 * 0.5;
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1);   //old
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)) + pow((h * a6), 2) * a1;
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1);   //old
+		rtMap(4, 1, 3) = -((h * c * a8) + 2 * (K1 * a1)) + pow((h * a6), 2) * a1;
 	}
 
 	rtMap(1, 1) = 1;
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index f9682cb..9c6cf16 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -322,7 +322,7 @@ void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool en
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double brho = P0 / eV / SpeedOfLight;
 	const double h = (*currentComponent).GetGeometry().GetCurvature();
-	const double k = (*currentComponent).GetField().GetKn(1, brho).real();
+	const double k = currentBunch->GetChargeSign() * (*currentComponent).GetField().GetKn(1, brho).real();
 
 	double beta = _PFV(pf, rot);
 	double c = 0; // currently not implemented
-- 
2.43.0


From 58ec4f70ad133690447aa13c263cec96361222d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:18 +0000
Subject: [PATCH 093/112] fix: the gradient in a bend off its matched momentum,
 or skew, is tracked by its map

---
 Merlin++/TransportIntegrators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 9c6cf16..44c6028 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -245,7 +245,8 @@ void SectorBendCI::TrackStep(double ds)
 	double len = splitMagnet ? ds / 2.0 : ds;
 
 	// Construct the second-order map
-	RTMap* M = (abs(K1) == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
+	// (the map is that of the matched momentum)
+	RTMap* M = (K1.real() == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real() * P0 / Pref, 0);
 
 	if(fequal(P0, Pref, REL_ENGY_TOL))
 	{
-- 
2.43.0


From 38f50797b61d0e360dc74fb86ae695ba73946a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 094/112] fix: bends whose gradient cancels their focusing have
 dispersion

---
 Merlin++/TransportMatrix.cpp | 10 +++++++++-
 Merlin++/TransportRMaps.cpp  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index b457a4d..0a76043 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -109,7 +109,7 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 	// dispesions terms (only included if matrix is 6D)
 	if(R.nrows() == 6)
 	{
-		if(h && Kx)
+		if(h)
 		{
 			if(Kx > 0)
 			{
@@ -124,6 +124,14 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 				R(4, 0) = -h * sinPhi / k;
 				R(4, 1) = -h * (1 - cosPhi) / Kx;
 			}
+			else if(Kx == 0)
+			{
+				R(0, 5) = h * length * length / 2;
+				R(1, 5) = h * length;
+				R(4, 5) = -h * h * length * length * length / 6;
+				R(4, 0) = -h * length;
+				R(4, 1) = -h * length * length / 2;
+			}
 			else
 			{
 				double k = sqrt(-Kx);
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index d7ee41d..eb5e77a 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -83,7 +83,7 @@ void SBR(double length, double h, double Kx, RMap& R)
 	// vertical plane
 	QR2(length, Ky, 2, R);
 
-	if(h && Kx)
+	if(h)
 	{
 		if(Kx > 0)
 		{
@@ -98,6 +98,14 @@ void SBR(double length, double h, double Kx, RMap& R)
 			R.AddTerm(5, 1) = -h * sinPhi / k;
 			R.AddTerm(5, 2) = -h * (1 - cosPhi) / Kx;
 		}
+		else if(Kx == 0)
+		{
+			R.AddTerm(1, 6) = h * length * length / 2;
+			R.AddTerm(2, 6) = h * length;
+			R.AddTerm(5, 6) = -h * h * length * length * length / 6;
+			R.AddTerm(5, 1) = -h * length;
+			R.AddTerm(5, 2) = -h * length * length / 2;
+		}
 		else
 		{
 			double k = sqrt(-Kx);
-- 
2.43.0


From d64dc54530eb5338b150d97fde170e525e65a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 095/112] fix: the coupling of a solenoid for macroparticles

---
 Merlin++/TransportRMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index eb5e77a..20e7c67 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -156,7 +156,7 @@ void SolR(double l, double ks, RMap& rs)
 	if(!fequal(theta, 0))
 	{
 		rs.AddTerm(1, 4) = 2. * s2 / ks;
-		rs.AddTerm(4, 2) = -2. * s2 / ks;
+		rs.AddTerm(3, 2) = -2. * s2 / ks;
 	}
 
 	rs.AddTerm(2, 1) = -ks * sc / 2;
-- 
2.43.0


From 62138466fc8a5f7b77cdb540d8bf38c1329eeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 096/112] fix: multipoles and tilted bends of thin lens and
 macroparticle tracking turn in the sense of their field

---
 Merlin++/SMPStdIntegrators.cpp | 25 +++++++++++++++++++------
 Merlin++/StdIntegrators.cpp    | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 7316ecc..e1b6477 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -99,8 +99,8 @@ struct ThinLensKick
 			double k = dpp * k1;
 			RMap M;
 			MakeIdentity(M);
-			M.AddTerm(2, 1) = k;
-			M.AddTerm(4, 3) = -k;
+			M.AddTerm(2, 1) = -k;
+			M.AddTerm(4, 3) = k;
 			M.Apply(p);
 		}
 	}
@@ -240,7 +240,7 @@ void SectorBendCI::TrackStep(double ds)
 
 	if(tilt != 0)
 	{
-		RotateBunchAboutZ(*currentBunch, tilt);
+		RotateBunchAboutZ(*currentBunch, -tilt);
 	}
 
 	MultipoleField& field = currentComponent->GetField();
@@ -272,7 +272,7 @@ void SectorBendCI::TrackStep(double ds)
 
 	if(tilt != 0)
 	{
-		RotateBunchAboutZ(*currentBunch, -tilt);
+		RotateBunchAboutZ(*currentBunch, tilt);
 	}
 
 	return;
@@ -300,9 +300,22 @@ void SectorBendCI::TrackExit()
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
 {
+	const double tilt = currentComponent->GetGeometry().GetTilt();
+
+	// The face is tilted with the magnet
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, -tilt);
+	}
+
 	RMap M;
 	TransportRMap::PoleFaceRot(h, pf.rot, pf.fint, pf.hgap, M);
 	ApplyMap(M, *currentBunch);
+
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, tilt);
+	}
 }
 
 void RectMultipoleCI::TrackStep(double ds)
@@ -348,7 +361,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		phi = arg(cK1) / 2.0;
 	}
 
-	double tilt = /*Component().GetGeometry().GetTilt()*/ -phi;
+	double tilt = /*Component().GetGeometry().GetTilt()*/ phi;
 
 	if(tilt != 0)
 	{
@@ -356,7 +369,7 @@ void RectMultipoleCI::TrackStep(double ds)
 	}
 	if(phi != 0)
 	{
-		cK0 *= -cK1 / abs(cK1);    // rotate dipole kick back
+		cK0 *= Complex(cos(phi), -sin(phi));    // the dipole kick in the axes of the quadrupole
 	}
 
 	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 56ad85a..bc14de7 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -186,7 +186,7 @@ void SectorBendCI::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
+		TransportMatrix::Srot(-tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
@@ -237,7 +237,7 @@ void SectorBendCI::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
+		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
@@ -266,9 +266,25 @@ void SectorBendCI::TrackExit()
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
 {
+	const double tilt = currentComponent->GetGeometry().GetTilt();
+	RMtrx Rr;
+
+	// The face is tilted with the magnet
+	if(tilt != 0)
+	{
+		TransportMatrix::Srot(-tilt, Rr.R);
+		Rr.Apply(currentBunch->GetParticles());
+	}
+
 	RMtrx M(2);
 	TransportMatrix::PoleFaceRot(h, pf.rot, pf.fint, pf.hgap, M.R);
 	M.Apply(currentBunch->GetParticles());
+
+	if(tilt != 0)
+	{
+		TransportMatrix::Srot(tilt, Rr.R);
+		Rr.Apply(currentBunch->GetParticles());
+	}
 }
 
 // Class RectMultipoleCI
@@ -304,7 +320,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		if(cK1.imag() != 0)
 		{
 			// Need to rotate the map
-			double a = arg(cK1) / 2;
+			double a = -arg(cK1) / 2;
 			RealMatrix Rr(4, 4);
 			TransportMatrix::Srot(a, Rr);
 			M.R = Rr * M.R * Transpose(Rr);
-- 
2.43.0


From f4b896b23d49fee4e468c68bda9e1395ce6b1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 097/112] fix: multipoles of symplectic tracking are applied
 once, in canonical momenta, tilted with their field

---
 Merlin++/SymplecticIntegrators.cpp | 94 +++++++++++++++++-------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index c9fd6fe..7411837 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -646,9 +646,24 @@ inline void ApplyMultipoleKick(ParticleBunch* bunch, MultipoleField& field, doub
 	}
 }
 
-inline void ApplyPoleFaceRotation(ParticleBunch* bunch, double h, const SectorBend::PoleFace& pf)
+inline void ApplyPoleFaceRotation(ParticleBunch* bunch, double h, double tilt, const SectorBend::PoleFace& pf)
 {
+	RMtrx Rr;
+
+	// The face is tilted with the magnet
+	if(tilt != 0)
+	{
+		TransportMatrix::Srot(-tilt, Rr.R);
+		Rr.Apply(bunch->GetParticles());
+	}
+
 	for_each(bunch->begin(), bunch->end(), PoleFaceRotation(h, pf));
+
+	if(tilt != 0)
+	{
+		TransportMatrix::Srot(tilt, Rr.R);
+		Rr.Apply(bunch->GetParticles());
+	}
 }
 
 inline void ApplySectorBendMap(ParticleBunch* bunch, double h, double ds)
@@ -728,7 +743,7 @@ void SectorBendCI::TrackEntrance()
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance);
+		ApplyPoleFaceRotation(currentBunch, h, currentComponent->GetGeometry().GetTilt(), *pfi.entrance);
 	}
 }
 
@@ -738,7 +753,7 @@ void SectorBendCI::TrackExit()
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.exit != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
+		ApplyPoleFaceRotation(currentBunch, h, currentComponent->GetGeometry().GetTilt(), *pfi.exit);
 	}
 }
 
@@ -752,7 +767,7 @@ void SectorBendCI::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
+		TransportMatrix::Srot(-tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
@@ -834,7 +849,7 @@ void SectorBendCI::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
+		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 }
@@ -845,7 +860,7 @@ void SectorBendCI_ef::TrackEntrance()
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance);
+		ApplyPoleFaceRotation(currentBunch, h, currentComponent->GetGeometry().GetTilt(), *pfi.entrance);
 	}
 }
 
@@ -855,7 +870,7 @@ void SectorBendCI_ef::TrackExit()
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.exit != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
+		ApplyPoleFaceRotation(currentBunch, h, currentComponent->GetGeometry().GetTilt(), *pfi.exit);
 	}
 }
 
@@ -868,7 +883,7 @@ void SectorBendCI_ef::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
+		TransportMatrix::Srot(-tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
@@ -950,7 +965,7 @@ void SectorBendCI_ef::TrackStep(double ds)
 	if(tilt != 0)
 	{
 		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
+		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
 }
@@ -985,56 +1000,57 @@ void RectMultipoleCI::TrackStep(double ds)
 	bool splitMagnet = field.GetCoefficient(0) != 0.0 || field.HighestMultipole() > 1;
 	double len = splitMagnet ? ds / 2 : ds;
 
-	RdpMtrx M(2);
-
 	if(cK1 != 0.0)
 	{
-		double K1 = cK1.imag() == 0 ? cK1.real() : abs(cK1);
-		TransportMatrix::QuadrupoleR(len, K1, M.R);
-		TransportMatrix::QuadrupoleT(len, K1, M.T);
+		// A rotated quadrupole is tracked in the axes in which it is upright
+		const double K1 = cK1.imag() == 0 ? cK1.real() : abs(cK1);
+		const double phi = cK1.imag() == 0 ? 0 : arg(cK1) / 2;
 
-		if(cK1.imag() != 0)
+		RMtrx Rr;
+		TransportMatrix::Srot(phi, Rr.R);
+		if(phi != 0)
 		{
-			// Need to rotate the map
-			double a = arg(cK1) / 2;
-			RealMatrix Rr(4, 4);
-			TransportMatrix::Srot(a, Rr);
-			M.R = Rr * M.R * Transpose(Rr);
-			M.T = Rr * M.T * Transpose(Rr);
+			Rr.Apply(currentBunch->GetParticles());
 		}
 
-		M.Apply(currentBunch->GetParticles());
+		ApplyQuadrupoleMap(currentBunch, K1, len);
 
 		if(splitMagnet)
 		{
-			Complex b1 = field.GetCoefficient(1);
-			field.SetCoefficient(1, Complex(0));
-			if(cK1 != 0.0)
+			if(phi != 0)
 			{
-				double phi = arg(cK1) / 2;
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q, -phi));
+				TransportMatrix::Srot(-phi, Rr.R);
+				Rr.Apply(currentBunch->GetParticles());
 			}
-			else
+
+			Complex b1 = field.GetCoefficient(1);
+			field.SetCoefficient(1, Complex(0));
+			ApplyMultipoleKick(currentBunch, field, ds, P0, q);
+			field.SetCoefficient(1, b1);
+
+			if(phi != 0)
 			{
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
+				TransportMatrix::Srot(phi, Rr.R);
+				Rr.Apply(currentBunch->GetParticles());
 			}
-			M.Apply(currentBunch->GetParticles());
-			field.SetCoefficient(1, b1);
+			ApplyQuadrupoleMap(currentBunch, K1, len);
 		}
 
+		if(phi != 0)
+		{
+			TransportMatrix::Srot(-phi, Rr.R);
+			Rr.Apply(currentBunch->GetParticles());
+		}
 	}
 	else
 	{
 		ApplyDriftMap(currentBunch, len);
-	}
 
-	if(splitMagnet)
-	{
-		Complex b1 = field.GetCoefficient(1);
-		field.SetCoefficient(1, Complex(0));
-		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-		ApplyDriftMap(currentBunch, len);
-		field.SetCoefficient(1, b1);
+		if(splitMagnet)
+		{
+			ApplyMultipoleKick(currentBunch, field, ds, P0, q);
+			ApplyDriftMap(currentBunch, len);
+		}
 	}
 }
 
-- 
2.43.0


From 7e448976b764f68e36ccecef83d774f57fe4c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:06 +0000
Subject: [PATCH 098/112] fix: bends whose gradient nearly cancels their
 focusing have dispersion

---
 Merlin++/TransportMatrix.cpp | 18 +++++++++---------
 Merlin++/TransportRMaps.cpp  | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 0a76043..ce416a3 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -111,7 +111,15 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 	{
 		if(h)
 		{
-			if(Kx > 0)
+			if(fabs(Kx) * length * length < 1.0e-10) // to where the cosine is one
+			{
+				R(0, 5) = h * length * length / 2;
+				R(1, 5) = h * length;
+				R(4, 5) = -h * h * length * length * length / 6;
+				R(4, 0) = -h * length;
+				R(4, 1) = -h * length * length / 2;
+			}
+			else if(Kx > 0)
 			{
 				double k = sqrt(Kx);
 				double phi = k * length;
@@ -124,14 +132,6 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 				R(4, 0) = -h * sinPhi / k;
 				R(4, 1) = -h * (1 - cosPhi) / Kx;
 			}
-			else if(Kx == 0)
-			{
-				R(0, 5) = h * length * length / 2;
-				R(1, 5) = h * length;
-				R(4, 5) = -h * h * length * length * length / 6;
-				R(4, 0) = -h * length;
-				R(4, 1) = -h * length * length / 2;
-			}
 			else
 			{
 				double k = sqrt(-Kx);
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 20e7c67..fab633b 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -85,7 +85,15 @@ void SBR(double length, double h, double Kx, RMap& R)
 
 	if(h)
 	{
-		if(Kx > 0)
+		if(fabs(Kx) * length * length < 1.0e-10) // to where the cosine is one
+		{
+			R.AddTerm(1, 6) = h * length * length / 2;
+			R.AddTerm(2, 6) = h * length;
+			R.AddTerm(5, 6) = -h * h * length * length * length / 6;
+			R.AddTerm(5, 1) = -h * length;
+			R.AddTerm(5, 2) = -h * length * length / 2;
+		}
+		else if(Kx > 0)
 		{
 			double k = sqrt(Kx);
 			double phi = k * length;
@@ -98,14 +106,6 @@ void SBR(double length, double h, double Kx, RMap& R)
 			R.AddTerm(5, 1) = -h * sinPhi / k;
 			R.AddTerm(5, 2) = -h * (1 - cosPhi) / Kx;
 		}
-		else if(Kx == 0)
-		{
-			R.AddTerm(1, 6) = h * length * length / 2;
-			R.AddTerm(2, 6) = h * length;
-			R.AddTerm(5, 6) = -h * h * length * length * length / 6;
-			R.AddTerm(5, 1) = -h * length;
-			R.AddTerm(5, 2) = -h * length * length / 2;
-		}
 		else
 		{
 			double k = sqrt(-Kx);
-- 
2.43.0


From cc4e40ff96fad191242472eed06b77eced531c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 099/112] fix: rotations and solenoids keep the time and energy
 of macroparticles

---
 Merlin++/TransportRMaps.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index fab633b..81f3afc 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -29,6 +29,8 @@ void SROT(double cosphi, double sinphi, RMap& R)
 	R.AddTerm(2, 4, -sinphi);
 	R.AddTerm(3, 1, sinphi);
 	R.AddTerm(4, 2, sinphi);
+	R.AddTerm(5, 5, 1.0);
+	R.AddTerm(6, 6, 1.0);
 }
 
 void QR2(double length, double K1, int offset, RMap& R)
@@ -164,6 +166,8 @@ void SolR(double l, double ks, RMap& rs)
 
 	rs.AddTerm(2, 3) = -ks * s2 / 2;
 	rs.AddTerm(4, 1) = ks * s2 / 2;
+	rs.AddTerm(5, 5) = 1;
+	rs.AddTerm(6, 6) = 1;
 }
 
 // Class Utility TransportRMap
-- 
2.43.0


From d3ebd6cbada450e9c0295dfb65f7f068a5ae4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:05 +0000
Subject: [PATCH 100/112] fix: the search for the lowest multipole ends with
 the field

---
 Merlin++/MultipoleField.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Merlin++/MultipoleField.h b/Merlin++/MultipoleField.h
index c88635c..8ccdd89 100644
--- a/Merlin++/MultipoleField.h
+++ b/Merlin++/MultipoleField.h
@@ -186,7 +186,7 @@ public:
 
 	/**
 	 * Return the lowest non-zero multipole index.
-	 * @return Lowest non-zero multipole index
+	 * @return Lowest non-zero multipole index (the number of terms if all are zero)
 	 */
 	int LowestMultipole() const;
 
@@ -220,9 +220,11 @@ inline int MultipoleField::HighestMultipole() const
 inline int MultipoleField::LowestMultipole() const
 {
 	size_t n = 0;
-	while(expansion[n++] == Complex(0.0))
-		;
-	return n - 1;
+	while(n < expansion.size() && expansion[n] == Complex(0.0))
+	{
+		n++;
+	}
+	return n;
 }
 
 #endif
-- 
2.43.0


From 13689fb3ee42df92f47d05ab942fef281af8b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:26 +0000
Subject: [PATCH 101/112] fix: the kick along a transverse cavity moves the
 particle by half of its angle

---
 Merlin++/TransRFIntegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransRFIntegrator.cpp b/Merlin++/TransRFIntegrator.cpp
index c8ce445..aeb1b15 100644
--- a/Merlin++/TransRFIntegrator.cpp
+++ b/Merlin++/TransRFIntegrator.cpp
@@ -36,10 +36,10 @@ struct TRFMap
 		double cx2 = 0.5 * cx1 * len;
 		double cy2 = 0.5 * cy1 * len;
 
-		x.xp() += cx1;
 		x.x() += cx2 + len * x.xp();
-		x.yp() += cy1;
+		x.xp() += cx1;
 		x.y() += cy2 + len * x.yp();
+		x.yp() += cy1;
 	}
 
 };
-- 
2.43.0


From 8810f1e8e941453f35f5668eb378470df2db9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:26 +0000
Subject: [PATCH 102/112] fix: the focusing of standing waves in symplectic
 tracking conserves phase space

---
 Merlin++/SymplecticIntegrators.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 7411837..c207b79 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -517,7 +517,6 @@ public:
 		double rt8 = 2.0 * rt2;
 
 		double cosphi = cos(phi);
-		double sinphi = sin(phi);
 
 		VncosPhi = Vn * cosphi;
 		double d0 = 1.0 + VncosPhi;
@@ -528,7 +527,7 @@ public:
 
 		m11 = cosalpha - rt2 * cosphi * sinalpha;
 		m12 = rt8 * len * cosphi * sinalpha / VncosPhi;
-		m21 = -(1.0 - 1.0 / d0) * (sinphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
+		m21 = -(1.0 - 1.0 / d0) * (cosphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
 		m22 = (cosalpha + rt2 * cosphi * sinalpha) / d0;
 
 		//~ cout<<std::setw(14)<<len;
-- 
2.43.0


From f40b2e405bdfedf8448ec55e1dd580fb4d501c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:26 +0000
Subject: [PATCH 103/112] fix: edge focusing of cavities for macroparticles is
 that of the field at the phase of arrival

---
 Merlin++/TransportRMaps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 81f3afc..a72926e 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -234,9 +234,9 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 	{
 		if(entr_field && !exit_field)
 		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
+			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.5 * g / E1;
+			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.5 * g * cosphi / E1;
 			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er;
 		}
 		else if(!entr_field && exit_field)
@@ -244,14 +244,14 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
 			R.AddTerm(2, 1) = R.AddTerm(4, 3) = 0.5 * g * cosphi / E1;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
+			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr);
 		}
 		else if(entr_field && exit_field)
 		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
+			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr;
 			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.25 * g * logEr / E1 / cosphi;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
+			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.25 * g * cosphi * logEr / E1;
+			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr);
 		}
 		else   //no fringe fields
 		{
-- 
2.43.0


From 787ad4e6f7f0dae055879ddd2aa3ca77a764b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:59 +0000
Subject: [PATCH 104/112] fix: eigenvalues that are found exactly are no
 failure to find them

---
 Merlin++/LinearAlgebra.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 0581992..f03dba6 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -168,7 +168,23 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				}
 
 				ComplexMatrix minv(mp);
-				prox = Inverse(minv);
+				try
+				{
+					prox = Inverse(minv);
+				}
+				catch(const SingularMatrix&)
+				{
+					// lambda is an eigenvalue as exactly as can be told:
+					// its vector is found from right beside it
+					lambda += 1.0e-14;
+					for(n = 0; n < 6; n++)
+					{
+						mp(n, n) = m(n, n) - lambda;
+					}
+					minv = mp;
+					Inverse(minv);
+					prox = 0;
+				}
 
 				ComplexVector y(6);
 				for(row = 0; row < 6; row++)
-- 
2.43.0


From bd70cac456ae8be4144a192d3410e1ab02cc296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:00 +0000
Subject: [PATCH 105/112] fix: transfer maps without the longitudinal plane can
 be made symplectic

---
 Merlin++/LinearAlgebra.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index f03dba6..3a456eb 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -252,11 +252,12 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 
 void Symplectify(RealMatrix& a)
 {
-	IdentityMatrix Ident(6);
+	const int dim = a.nrows(); // 6, or 4 for the transverse motion alone
+	IdentityMatrix Ident(dim);
 	RealMatrix I(Ident);
 	RealMatrix s(Ident);
 
-	for(int n = 0; n < 3; n++)
+	for(int n = 0; n < dim / 2; n++)
 	{
 		int m = 2 * n;
 		s(m, m) = s(m + 1, m + 1) = 0;
@@ -271,9 +272,9 @@ void Symplectify(RealMatrix& a)
 	RealMatrix Ima(I - a);
 	RealMatrix v(s * Ima * Ipa);
 
-	RealMatrix w(6);
-	for(int row = 0; row < 6; row++)
-		for(int col = 0; col < 6; col++)
+	RealMatrix w(dim);
+	for(int row = 0; row < dim; row++)
+		for(int col = 0; col < dim; col++)
 		{
 			w(row, col) = (v(row, col) + v(col, row)) / 2;
 		}
-- 
2.43.0


From 67ab7fa01c07756bc0a8fb2915613ed846e2d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:00 +0000
Subject: [PATCH 106/112] fix: tunes are interpolated between the peak and its
 neighbour

---
 Merlin++/BetatronTunes.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index dfa7817..521e844 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -119,7 +119,8 @@ double BetatronTunes::FindTune(vector<double>& data)
 	double peak_height = 0.0;
 	int peak_position = 0;
 
-	// skip artifacts in first 2 bins
+	// the spectrum is counted from the first bin, but artifacts there are no peak
+	spectrum.push_back(sqrt(data[0] * data[0] + data[1] * data[1]));
 	for(int i = 2; i < 2 * nvals; i += 2)
 	{
 		double vamp = sqrt(data[i] * data[i] + data[i + 1] * data[i + 1]);
@@ -133,7 +134,7 @@ double BetatronTunes::FindTune(vector<double>& data)
 
 	double norm = sqrt(double(nvals));
 	double centr_peak = spectrum[peak_position] / norm;
-	double right_peak = spectrum[peak_position + 1] / norm;
+	double right_peak = spectrum[(peak_position + 1) % nvals] / norm;
 
 	double peak_correction = nvals * asin(amp(centr_peak, right_peak, cos(twoPi / nvals))
 		* sin(twoPi / double(nvals))) / twoPi;
-- 
2.43.0


From 4cd4f5b82b32c499e19aee677de1788f0026470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:00 +0000
Subject: [PATCH 107/112] fix: a phase advance counts the turn completed in its
 last component

---
 Merlin++/PhaseAdvance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index ecf305c..d643448 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -146,7 +146,7 @@ std::pair<double, double> PhaseAdvance::CalcIntegerPart(int n)
 	double last_mux(0.), last_muy(0.);
 
 	//Iterate through all elements to sum integer parts
-	for(int i = 1; i < n; ++i)
+	for(int i = 1; i <= n; ++i)
 	{
 		if((theTwiss->Value(0, 0, 1, i) == last_mux) || (theTwiss->Value(0, 0, 1, i) <= 0.))
 		{
-- 
2.43.0


From 78c6a25fcb89e6fefed30910ef29e309d181a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:00 +0000
Subject: [PATCH 108/112] fix: the rms dispersion begins with the dispersion at
 the start

---
 Merlin++/Dispersion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Dispersion.cpp b/Merlin++/Dispersion.cpp
index d81dd81..b319f61 100644
--- a/Merlin++/Dispersion.cpp
+++ b/Merlin++/Dispersion.cpp
@@ -68,7 +68,8 @@ void Dispersion::FindRMSDispersion(ostream* file)
 	double len = 0.0;
 	double dl = 0.0;
 	double prev[2];
-	prev[0] = prev[1] = 0;
+	prev[0] = (q.x() - p.x()) / 2 / delta;
+	prev[1] = (q.y() - p.y()) / 2 / delta;
 	double pres[2];
 	double rmsD[2];
 	rmsD[0] = rmsD[1] = 0;
-- 
2.43.0


From c6fc57020edb083e81cf8e4b0d59a832cd7837ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:24 +0000
Subject: [PATCH 109/112] fix: the lattice position of an element is its place
 in the beam line

---
 Merlin++/AcceleratorModel.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 90bb5b3..ee1e2d6 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -382,28 +382,11 @@ size_t AcceleratorModel::GetAcceleratorSupports(AcceleratorSupportList& supports
 	return eas.nFound;
 }
 
-static bool SortComponent(const AcceleratorComponent* first, const AcceleratorComponent* last)
-{
-	return first->GetComponentLatticePosition() < last->GetComponentLatticePosition();
-}
-
-static vector<AcceleratorComponent*> SortAcceleratorModel(AcceleratorModel* model)
-{
-	vector<AcceleratorComponent*> elements;
-
-	model->ExtractTypedElements(elements, "*");
-
-	sort(elements.begin(), elements.end(), SortComponent);
-	return elements;
-}
-
 int AcceleratorModel::FindElementLatticePosition(string RequestedElement)
 {
-	vector<AcceleratorComponent*> elements = SortAcceleratorModel(this);
-	size_t nelm = elements.size();
-	for(size_t n = 0; n < nelm; n++)
+	for(size_t n = 0; n < lattice.size(); n++)
 	{
-		if(elements[n]->GetName() == RequestedElement)
+		if(lattice[n]->IsComponent() && lattice[n]->GetComponent().GetName() == RequestedElement)
 		{
 			return n;
 		}
-- 
2.43.0


From 4d73b10aa7412ef2d3d87d4b2bd08787379c57a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:24 +0000
Subject: [PATCH 110/112] fix: the transfer map between two components is about
 the orbit at the first

---
 Merlin++/PhaseAdvance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index d643448..5a7a7cb 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -118,7 +118,7 @@ RealMatrix PhaseAdvance::TransferMapBetween(int n1, int n2)
 	tm.SetDelta(delta);
 	tm.ScaleBendPathLength(bendscale);
 
-	co.FindClosedOrbit(p2);
+	co.FindClosedOrbit(p2, n1);
 	//~ std::cout << "PhaseAdvance::TransferMapBetween: ClosedOrbit done" << endl;
 	tm.FindTM(M, p2, n1, n2);
 	//~ std::cout << "PhaseAdvance::TransferMapBetween: TransferMatrix done" << endl;
-- 
2.43.0


From 579ad9e64db987b2885486b8b4f064bdbec85e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:28 +0000
Subject: [PATCH 111/112] fix: strongly coupled modes are found once each

---
 Merlin++/LinearAlgebra.cpp | 61 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 3a456eb..be94990 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -117,9 +117,41 @@ double Invert(RealMatrix& t)
 	return Inverse(t);
 }
 
+namespace
+{
+// Conjugate[e].s.v of the k-th row e of eigenvectors, or of its conjugate
+Complex SymplecticProduct(const ComplexMatrix& eigenvectors, int k, bool conjugate, const ComplexVector& v)
+{
+	Complex sum = 0;
+	for(int n = 0; n < 6; n += 2)
+	{
+		Complex x = eigenvectors(k, n), px = eigenvectors(k, n + 1);
+		sum += conjugate ? x * v(n + 1) - px * v(n) : conj(x) * v(n + 1) - conj(px) * v(n);
+	}
+	return sum;
+}
+
+// leave of v what is independent of the first n modes
+void SetApart(ComplexVector& v, const ComplexMatrix& eigenvectors, int n)
+{
+	for(int k = 0; k < n; k++)
+	{
+		// rows are normalised: Conjugate[e].s.e = -i or i
+		const Complex norm = SymplecticProduct(eigenvectors, k, false, ComplexVector(eigenvectors.row(k)));
+		const Complex a = SymplecticProduct(eigenvectors, k, false, v) / norm;
+		const Complex b = SymplecticProduct(eigenvectors, k, true, v) / -norm;
+		for(int i = 0; i < 6; i++)
+		{
+			v(i) -= a * eigenvectors(k, i) + b * conj(eigenvectors(k, i));
+		}
+	}
+}
+}
+
 bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigenvectors)
 {
 	bool allOK = true;
+	bool apart = false; // look for a mode other than those already found
 	ComplexMatrix m(t);
 	Matrix<int> s(6, 6, 0);
 
@@ -135,11 +167,16 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 		Complex cos_mu((t(2 * pln, 2 * pln) + t(2 * pln + 1, 2 * pln + 1)) / 2.0, 0);
 		Complex isin_mu = sqrt(cos_mu * cos_mu - Complex(1, 0));
 		Complex lambda(cos_mu + isin_mu);
+		const bool oscillates = imag(lambda) != 0;
 
 		//Guess an eigenvector
 		ComplexVector b(0.0, 6);
 		b(2 * pln) = Complex(1 / sqrt(2.0));
 		b(2 * pln + 1) = b(2 * pln);
+		if(apart)
+		{
+			SetApart(b, eigenvectors, pln);
+		}
 
 		// Did you accidentally guess right? - added RJB
 		ComplexVector Check(0., 6);
@@ -196,6 +233,10 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 					}
 					y(row) = sum;
 				}
+				if(apart)
+				{
+					SetApart(y, eigenvectors, pln);
+				}
 
 				Complex ynorm = 0.0;
 				Complex ydotb = 0.0;
@@ -206,7 +247,10 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				}
 
 				b = y / sqrt(ynorm);
-				lambda += 1.0 / ydotb;
+				if(!apart || iter >= 8)
+				{
+					lambda += 1.0 / ydotb;
+				}
 				iter++;
 			}
 			if(iter == maxiter)
@@ -239,6 +283,21 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				b(row) = Complex(real(b(row)), -imag(b(row)));
 			}
 		}
+		// With strong coupling the guess may lead to a mode that has been found already,
+		// or to the longitudinal one: then look near the guess, apart from the modes found
+		bool again = pln < 2 && oscillates && abs(imag(lambda)) < 1.0e-6;
+		for(int k = 0; k < pln; k++)
+		{
+			again = again || abs(SymplecticProduct(eigenvectors, k, false, b)) > 0.5;
+		}
+		if(again && !apart)
+		{
+			apart = true;
+			pln--;
+			continue;
+		}
+		apart = false;
+
 		eigenvalues(pln) = lambda;
 		eigenvectors.row(pln) = b;
 		if((imag(lambda) == 0) && pln == 2)
-- 
2.43.0


From 49f31604d2ad513fdd5600bdf21535a14c09d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 112/112] fix: singular values of singular and of small
 matrices are found

---
 Merlin++/TLASimp.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 89b076e..83fde56 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -411,7 +411,7 @@ inline T PYTHAG(T a, T b)
 		T c = b / a;
 		return a * sqrt(1 + c * c);
 	}
-	else if(!fequal(b, 0.0))
+	else if(b > 0)
 	{
 		T c = a / b;
 		return b * sqrt(1 + c * c);
@@ -447,7 +447,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		if(i <= rmax)
 		{
 			F0 += M(R1, i).sumfabs();
-			if(!fequal(F0, 0.0))
+			if(F0 != 0.0)
 			{
 				M(R1, i) /= F0;
 				f1 += M(R1, i).sumsquared();
@@ -474,7 +474,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		{
 			Range R2(i + 1, cmax);
 			F0 += M(i, R2).sumfabs();
-			if(!fequal(F0, 0.0))
+			if(F0 != 0.0)
 			{
 				M(i, R2) /= F0;
 				f1 += M(i, R2).sumsquared();
@@ -503,7 +503,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		if(i < cmax)
 		{
 			Range R2(i + 1, cmax);
-			if(!fequal(F1, 0.0))
+			if(F1 != 0.0)
 			{
 				S(R2, i) = (M(i, R2) / M[i][i + 1]) / F1;
 				for(int j = i + 1; j <= cmax; j++)
@@ -526,7 +526,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		F1 = V[i];
 		if(i < cmax)
 			M(i, R4) = 0;
-		if(!fequal(F1, 0.0))
+		if(F1 != 0.0)
 		{
 			F1 = 1.0 / F1;
 			if(i != cmax)
@@ -559,12 +559,12 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 			for(L = k; L >= 0; L--)
 			{
 				remember = L - 1;
-				if(fequal(fabs(work[L]) + F2, F2))
+				if(fabs(work[L]) + F2 == F2)
 				{
 					ok = false;
 					break;
 				}
-				if(fequal(fabs(V[L - 1]) + F2, F2))
+				if(fabs(V[L - 1]) + F2 == F2)
 				{
 					break;
 				}
@@ -577,7 +577,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				{
 					f0 = f1 * work[i];
 					work[i] = f2 * work[i];
-					if(!fequal(fabs(f0) + F2, F2))
+					if(fabs(f0) + F2 != F2)
 					{
 						F1 = V[i];
 						f3 = PYTHAG(f0, F1);
@@ -635,7 +635,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				S.column(j + 1) = Z1 * f2 - X * f1;
 				q1 = PYTHAG(f0, f3);
 				V[j] = q1;
-				if(!fequal(q1, 0.0))
+				if(q1 != 0.0)
 				{
 					q1 = 1.0 / q1;
 					f2 = f0 * q1;
-- 
2.43.0

