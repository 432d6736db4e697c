From 59668dd3069c8d48147acaa8c30377ea5cfb1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:24 +0000
Subject: [PATCH 01/28] fix: flip with an empty interval returned garbage or
 never ended

Flipping an interval set or a partial interval map with an empty interval ran
equal_range on it: an assertion failure in debug builds, an infinite loop or
a corrupted container with NDEBUG. An empty operand changes nothing.
---
 include/boost/icl/concept/interval_set.hpp | 3 +++
 include/boost/icl/interval_base_map.hpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/boost/icl/concept/interval_set.hpp b/include/boost/icl/concept/interval_set.hpp
index 63aad41..b00b894 100644
--- a/include/boost/icl/concept/interval_set.hpp
+++ b/include/boost/icl/concept/interval_set.hpp
@@ -232,6 +232,9 @@ flip(Type& object, const typename Type::segment_type& segment)
     // That which is not shall be added
     // So x has to be 'complementary added' or flipped
     interval_type span = segment;
+    if(icl::is_empty(span)) 
+        return object;
+
     std::pair<const_iterator, const_iterator> exterior 
         = object.equal_range(span);
 
diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index f464a6a..de8903e 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -755,6 +755,9 @@ private:
             // That which is not shall be added
             // So interval_value_pair has to be 'complementary added' or flipped
             interval_type span = interval_value_pair.first;
+            if(icl::is_empty(span)) 
+                return;
+
             std::pair<const_iterator, const_iterator> exterior 
                 = object.equal_range(span);
 
-- 
2.43.0


From 1cd7ef91f4da155da174267b76ecd2a1d19b489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:37 +0000
Subject: [PATCH 02/28] fix: icl::map::insert(first, last) ran off its end
 without a return value

---
 include/boost/icl/map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 3877745..7f34437 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -342,6 +342,7 @@ public:
         iterator prior = end(), it = first;
         while(it != last)
             prior = this->insert(prior, *it++);
+        return prior;
     }
 
     /** With <tt>key_value_pair = (k,v)</tt> set value \c v for key \c k */
-- 
2.43.0


From 6c85c8aa1d12c7e509d510c05011bad850bfa1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:37 +0000
Subject: [PATCH 03/28] fix: set_at on element maps did not compile and ignored
 identity values

icl::map::set dereferenced the wrong member of the insertion result. Setting
a key of an identity absorber to the identity element has to remove the key,
as it does for interval maps.
---
 include/boost/icl/concept/element_map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index b2d78ab..087ce09 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -203,8 +203,10 @@ set_at(Type& object, const typename Type::element_type& operand)
     {
         std::pair<iterator,bool> insertion = object.insert(operand);
         if(!insertion.second)
-            insertion->second = operand.second;
+            insertion.first->second = operand.second;
     }
+    else
+        object.erase(operand.first);
     return object;
 }
 
-- 
2.43.0


From 216239664e56885104af92c4d3b039e555cae1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:37 +0000
Subject: [PATCH 04/28] fix: is_element_less and is_element_greater did not
 compile for interval containers

---
 include/boost/icl/detail/element_comparer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/detail/element_comparer.hpp b/include/boost/icl/detail/element_comparer.hpp
index 56ae8c5..198fce8 100644
--- a/include/boost/icl/detail/element_comparer.hpp
+++ b/include/boost/icl/detail/element_comparer.hpp
@@ -124,7 +124,7 @@ public:
             return stop;
         }
 
-        if(!key_value<LeftT>(_prior_left).touches(key_value<LeftT>(left)))
+        if(!icl::touches(key_value<LeftT>(_prior_left), key_value<LeftT>(left)))
         {   // left: same B = sameB...
             // right:sameA  = sameA...
             _result = greater;
@@ -146,7 +146,7 @@ public:
             return stop;
         }
 
-        if(!key_value<RightT>(_prior_right).touches(key_value<RightT>(right)))
+        if(!icl::touches(key_value<RightT>(_prior_right), key_value<RightT>(right)))
         {
             // left: sameA... = sameA...
             // right:same B.. = sameB...
-- 
2.43.0


From cc2e3008e377fc15846972b8b2a28a99a0e48855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:37 +0000
Subject: [PATCH 05/28] fix: erase_if, add_if and assign_if of element
 containers

erase_if and assign_if did not compile, add_if never ended once the predicate
was false for an element.
---
 include/boost/icl/concept/element_associator.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 4d37e25..87fad3f 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -472,7 +472,7 @@ erase_if(const Predicate& pred, Type& object)
     typename Type::iterator it_ = object.begin();
     while(it_ != object.end())
         if(pred(*it_))
-            icl::erase(object, it_++);
+            object.erase(it_++);
         else ++it_;
     return object;
 }
@@ -483,8 +483,11 @@ add_if(const Predicate& pred, Type& object, const Type& src)
 {
     typename Type::const_iterator it_ = src.begin();
     while(it_ != src.end())
+    {
         if(pred(*it_))
-            icl::add(object, *it_++);
+            icl::add(object, *it_);
+        ++it_;
+    }
 
     return object;
 }
@@ -494,7 +497,7 @@ inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 assign_if(const Predicate& pred, Type& object, const Type& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return icl::add_if(pred, object, src);
 }
 
 
-- 
2.43.0


From 9e02e69a15d8c3e211c86565dd54fb224e530dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:37 +0000
Subject: [PATCH 06/28] fix: add_if and assign_if of interval maps

add_if never ended once the predicate was false for a segment, assign_if did
not compile.
---
 include/boost/icl/concept/interval_map.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index 58298d8..b682696 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -619,8 +619,11 @@ add_if(const Predicate& pred, MapT& object, const MapT& src)
 {
     typename MapT::const_iterator it_ = src.begin();
     while(it_ != src.end())
+    {
         if(pred(*it_)) 
-            icl::add(object, *it_++); 
+            icl::add(object, *it_); 
+        ++it_;
+    }
     
     return object;
 }
@@ -630,7 +633,7 @@ inline typename enable_if<is_interval_map<MapT>, MapT>::type&
 assign_if(const Predicate& pred, MapT& object, const MapT& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return icl::add_if(pred, object, src);
 }
 
 
-- 
2.43.0


From 6166afbbc1035a54c89adf4637f556bc80be9c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:49 +0000
Subject: [PATCH 07/28] fix: absorb_identities on element maps

The overload for identity enrichers had an empty body (no return value, no
effect); removing identity valued elements was only done for maps that never
hold any.
---
 include/boost/icl/concept/element_map.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 087ce09..592add3 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -451,15 +451,18 @@ inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , absorbs_identities<Type> >, Type>::type&
 absorb_identities(Type& object)
 {
-    typedef typename Type::element_type element_type;
-    return icl::erase_if(content_is_identity_element<element_type>(), object);
+    return object;
 }
 
 template<class Type>
 inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , mpl::not_<absorbs_identities<Type> > >
                          , Type>::type&
-absorb_identities(Type&){}
+absorb_identities(Type& object)
+{
+    typedef typename Type::element_type element_type;
+    return icl::erase_if(content_is_identity_element<element_type>(), object);
+}
 
 //==============================================================================
 //= Streaming<ElementMap>
-- 
2.43.0


From 28e44bd49043a20cf7155c438048ce8aa5dd5db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 08/28] fix: intersecting a set valued map with a pair carrying
 the empty set

An identity absorbing map ignores an identity operand, so the second of
the two _add steps was skipped and the own value survived. Intersect the
values first and add the common value.
---
 include/boost/icl/interval_base_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index de8903e..a43a0f1 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -535,8 +535,9 @@ private:
             interval_type common_interval = (*it_).first & inter_val; 
             if(!icl::is_empty(common_interval))
             {
-                section.template _add<codomain_combine>  (value_type(common_interval, (*it_).second) );
-                section.template _add<codomain_intersect>(value_type(common_interval, operand.second));
+                codomain_type common_value = (*it_).second;
+                codomain_intersect()(common_value, operand.second);
+                section.template _add<codomain_combine>(value_type(common_interval, common_value));
             }
         }
     }
-- 
2.43.0


From f65492b8fe4bba401b36bdac21ca3d6eb663d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:27 +0000
Subject: [PATCH 09/28] fix: cardinality, length and distance of intervals over
 a descending domain order

---
 include/boost/icl/concept/interval.hpp | 48 ++++++++++++++++++++------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index fab7dd9..8b326b6 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -83,6 +83,14 @@ domain_prior(const typename interval_traits<Type>::domain_type value)
     return icl::predecessor<domain_type,domain_compare>::apply(value);
 }
 
+/** Does the order of the interval's domain agree with the natural order, in
+    which differences of domain values are taken? */
+template<class Type>
+struct is_domain_increasing
+    : is_increasing<typename interval_traits<Type>::domain_type,
+                    typename interval_traits<Type>::domain_compare>
+{};
+
 //==============================================================================
 //= Construct<Interval> singleton
 //==============================================================================
@@ -1015,7 +1023,9 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(is_domain_increasing<Type>::value
+                                                    ? last_next(object) - first(object)
+                                                    : first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1037,7 +1047,9 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(is_domain_increasing<Type>::value
+                                                    ? last_next(object) - first(object)
+                                                    : first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1047,7 +1059,9 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(is_domain_increasing<Type>::value
+                                                    ? last_next(object) - first(object)
+                                                    : first(object) - last_next(object));
 }
 
 
@@ -1069,7 +1083,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : is_domain_increasing<Type>::value
+                                     ? upper(object) - lower(object)
+                                     : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1079,7 +1095,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : is_domain_increasing<Type>::value
+                                     ? last_next(object) - first(object)
+                                     : first(object) - last_next(object);
 }
 
 template<class Type>
@@ -1089,7 +1107,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : is_domain_increasing<Type>::value
+                                     ? upper(object) - lower(object)
+                                     : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1099,7 +1119,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : is_domain_increasing<Type>::value
+                                     ? last_next(object) - first(object)
+                                     : first(object) - last_next(object);
 }
 
 //- iterative_size -------------------------------------------------------------
@@ -1418,9 +1440,13 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<difference_type>::value();
     else if(domain_less<Type>(last(x1), first(x2)))
-        return static_cast<difference_type>(icl::pred(first(x2) - last(x1)));
+        return static_cast<difference_type>(is_domain_increasing<Type>::value
+                                            ? icl::pred(first(x2) - last(x1))
+                                            : icl::pred(last(x1) - first(x2)));
     else if(domain_less<Type>(last(x2), first(x1)))
-        return static_cast<difference_type>(icl::pred(first(x1) - last(x2)));
+        return static_cast<difference_type>(is_domain_increasing<Type>::value
+                                            ? icl::pred(first(x1) - last(x2))
+                                            : icl::pred(last(x2) - first(x1)));
     else
         return icl::identity_element<difference_type>::value();
 }
@@ -1439,9 +1465,9 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<DiffT>::value();
     else if(domain_less<Type>(upper(x1), lower(x2)))
-        return lower(x2) - upper(x1);
+        return is_domain_increasing<Type>::value ? lower(x2) - upper(x1) : upper(x1) - lower(x2);
     else if(domain_less<Type>(upper(x2), lower(x1)))
-        return lower(x1) - upper(x2);
+        return is_domain_increasing<Type>::value ? lower(x1) - upper(x2) : upper(x2) - lower(x1);
     else
         return icl::identity_element<DiffT>::value();
 }
-- 
2.43.0


From e20c1b86c1f7a86403d967a55b91a8ddf1ddf1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:27 +0000
Subject: [PATCH 10/28] fix: element iteration and atomize over a descending
 domain order

---
 include/boost/icl/detail/element_iterator.hpp | 34 ++++++++++++++-----
 .../boost/icl/detail/interval_morphism.hpp    | 10 +++++-
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index b3a2db9..f7bfe6d 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -10,6 +10,7 @@ Copyright (c) 2009-2009: Joachim Faulhaber
 
 #include <boost/mpl/if.hpp>
 #include <boost/iterator/iterator_facade.hpp>
+#include <boost/icl/type_traits/is_increasing.hpp>
 #include <boost/icl/type_traits/succ_pred.hpp>
 #include <boost/icl/detail/mapped_reference.hpp>
 
@@ -125,6 +126,19 @@ struct elemental;
 #endif //ICL_USE_INTERVAL_TEMPLATE_TEMPLATE
 
 
+//------------------------------------------------------------------------------
+//- The element that is 'distance' steps after (or before) 'start' in the order
+//- of the interval's domain, which may be a descending one.
+//------------------------------------------------------------------------------
+template<class IntervalT, bool forward, class DomainT, class DifferenceT>
+inline DomainT element_step(const DomainT& start, const DifferenceT& distance)
+{
+    typedef typename interval_traits<IntervalT>::domain_compare domain_compare;
+    return (is_increasing<DomainT, domain_compare>::value == forward) 
+                ? start + distance
+                : start - distance;
+}
+
 //------------------------------------------------------------------------------
 //- struct segment_adapter
 //------------------------------------------------------------------------------
@@ -152,8 +166,9 @@ struct segment_adapter<SegmentIteratorT, ICL_INTERVAL_TYPE(Interval,DomainT,Comp
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper, 
                                           const domain_difference_type& sneaker)
     { 
-        inter_pos = is_reverse<SegmentIteratorT>::value ? leaper->last()  - sneaker
-                                                        : leaper->first() + sneaker;
+        inter_pos = is_reverse<SegmentIteratorT>::value 
+                    ? element_step<interval_type, false>(leaper->last(), sneaker)
+                    : element_step<interval_type, true >(leaper->first(), sneaker);
         return inter_pos; 
     }
 };
@@ -178,8 +193,9 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper,
                                           const domain_difference_type& sneaker)
     {
-        inter_pos = is_reverse<SegmentIteratorT>::value ? leaper->first.last()  - sneaker
-                                                        : leaper->first.first() + sneaker;
+        inter_pos = is_reverse<SegmentIteratorT>::value 
+                    ? element_step<interval_type, false>(leaper->first.last(), sneaker)
+                    : element_step<interval_type, true >(leaper->first.first(), sneaker);
         return transit_type(inter_pos, leaper->second); 
     }
 };
@@ -206,8 +222,9 @@ struct segment_adapter
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper, 
                                           const domain_difference_type& sneaker)
     { 
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(*leaper)  - sneaker
-                                                        : icl::first(*leaper) + sneaker;
+        inter_pos = is_reverse<SegmentIteratorT>::value 
+                    ? element_step<interval_type, false>(icl::last(*leaper), sneaker)
+                    : element_step<interval_type, true >(icl::first(*leaper), sneaker);
         return inter_pos; 
     }
 };
@@ -231,8 +248,9 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper,
                                           const domain_difference_type& sneaker)
     {
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(leaper->first)  - sneaker
-                                                        : icl::first(leaper->first) + sneaker;
+        inter_pos = is_reverse<SegmentIteratorT>::value 
+                    ? element_step<interval_type, false>(icl::last(leaper->first), sneaker)
+                    : element_step<interval_type, true >(icl::first(leaper->first), sneaker);
         return transit_type(inter_pos, leaper->second); 
     }
 };
diff --git a/include/boost/icl/detail/interval_morphism.hpp b/include/boost/icl/detail/interval_morphism.hpp
index 4c85d54..a85144d 100644
--- a/include/boost/icl/detail/interval_morphism.hpp
+++ b/include/boost/icl/detail/interval_morphism.hpp
@@ -28,8 +28,16 @@ namespace boost{namespace icl
                 const typename IntervalContainerT::key_type& itv   = icl::key_value<IntervalContainerT>(itv_);
                 typename IntervalContainerT::codomain_type   coval = icl::co_value<IntervalContainerT>(itv_);
 
-                for(typename IntervalContainerT::domain_type element = first(itv); element <= last(itv); ++element)
+                typename IntervalContainerT::domain_type element = first(itv);
+                const typename IntervalContainerT::domain_type last_element = last(itv);
+
+                for(;;)
+                {
                     icl::insert(result, icl::make_value<ElementContainerT>(element, coval));
+                    if(element == last_element)
+                        break;
+                    element = icl::domain_next<typename IntervalContainerT::interval_type>(element);
+                }
             }
         }
 
-- 
2.43.0


From fe3995c5844b758121633cd03df6dd079e16e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:27 +0000
Subject: [PATCH 11/28] fix: containment and inclusion of interval maps over
 std::set did not compile

---
 include/boost/icl/detail/interval_subset_comparer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/icl/detail/interval_subset_comparer.hpp b/include/boost/icl/detail/interval_subset_comparer.hpp
index 00ff116..e574611 100644
--- a/include/boost/icl/detail/interval_subset_comparer.hpp
+++ b/include/boost/icl/detail/interval_subset_comparer.hpp
@@ -16,6 +16,7 @@ Copyright (c) 2008-2009: Joachim Faulhaber
 #include <boost/icl/type_traits/is_interval_container.hpp>
 #include <boost/icl/type_traits/is_set.hpp>
 #include <boost/icl/concept/interval_set_value.hpp>
+#include <boost/icl/concept/element_associator.hpp>
 
 namespace boost{namespace icl
 {
-- 
2.43.0


From f59f809832470899432c92a60d34c394d2daf556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 12/28] fix: a default closed interval over a descending domain
 was not empty

---
 include/boost/icl/closed_interval.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/closed_interval.hpp b/include/boost/icl/closed_interval.hpp
index d7a3e6f..cd715d1 100644
--- a/include/boost/icl/closed_interval.hpp
+++ b/include/boost/icl/closed_interval.hpp
@@ -33,9 +33,13 @@ public:
     //==========================================================================
     //= Construct, copy, destruct
     //==========================================================================
-    /** Default constructor; yields an empty interval <tt>[0,0)</tt>. */
+    /** Default constructor; yields an empty interval <tt>[1,0]</tt>, 
+        or <tt>[0,1]</tt>, if the order of the domain is descending. */
     closed_interval()
-        : _lwb(unit_element<DomainT>::value()), _upb(identity_element<DomainT>::value())
+        : _lwb(is_increasing<DomainT,domain_compare>::value 
+                ? unit_element<DomainT>::value() : identity_element<DomainT>::value())
+        , _upb(is_increasing<DomainT,domain_compare>::value 
+                ? identity_element<DomainT>::value() : unit_element<DomainT>::value())
     {
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
-- 
2.43.0


From 4119a1cde5babb1efb8a01c965f3351777abfe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:46 +0000
Subject: [PATCH 13/28] fix: looking up keys in containers of statically
 bounded date intervals did not compile

---
 include/boost/icl/concept/interval.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 8b326b6..eafb024 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -171,7 +171,8 @@ template<class Type>
 typename enable_if
 <
     mpl::and_< is_static_right_open<Type>
-             , boost::detail::is_incrementable<typename interval_traits<Type>::domain_type> >
+             , mpl::or_< is_discrete<typename interval_traits<Type>::domain_type>
+                        , boost::detail::is_incrementable<typename interval_traits<Type>::domain_type> > >
   , Type
 >::type
 unit_trail(const typename interval_traits<Type>::domain_type& value)
@@ -183,7 +184,8 @@ template<class Type>
 typename enable_if
 <
     mpl::and_< is_static_left_open<Type>
-             , boost::detail::is_incrementable<typename interval_traits<Type>::domain_type> >
+             , mpl::or_< is_discrete<typename interval_traits<Type>::domain_type>
+                        , boost::detail::is_incrementable<typename interval_traits<Type>::domain_type> > >
   , Type
 >::type
 unit_trail(const typename interval_traits<Type>::domain_type& value)
-- 
2.43.0


From 4d8fee900712b4faf9273ad3000cbff0865b7bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:14 +0000
Subject: [PATCH 14/28] fix: asking an empty unsigned interval for an element

contains(right_open_interval<unsigned>(), 5u) computed last([0,0)), which is
below the minimum of the domain: it asserted, or was true without assertions.
---
 include/boost/icl/concept/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index eafb024..4518053 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -869,7 +869,8 @@ template<class Type>
 typename boost::enable_if<is_discrete_static<Type>, bool>::type
 contains(const Type& super, const typename interval_traits<Type>::domain_type& element)
 {
-    return domain_less_equal<Type>(icl::first(super), element                  )
+    return !icl::is_empty(super)
+        && domain_less_equal<Type>(icl::first(super), element                  )
         && domain_less_equal<Type>(                   element, icl::last(super));
 }
 
-- 
2.43.0


From 959793b6de949b809e23e21dded189a67030bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:14 +0000
Subject: [PATCH 15/28] fix: comparing an unsigned interval with the empty one
 for equality

discrete_interval<unsigned>(0,0,closed) == discrete_interval<unsigned>()
computed last([0,0)), which is below the minimum of the domain, and asserted.
---
 include/boost/icl/concept/interval.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 4518053..b8f9b67 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -917,8 +917,9 @@ template<class Type>
 typename boost::enable_if<is_interval<Type>, bool>::type
 operator == (const Type& left, const Type& right)
 {
-    return (icl::is_empty(left) && icl::is_empty(right))
-        || (lower_equal(left,right) && upper_equal(left,right));
+    return icl::is_empty(left)
+         ? icl::is_empty(right)
+         : !icl::is_empty(right) && lower_equal(left,right) && upper_equal(left,right);
 }
 
 template<class Type>
-- 
2.43.0


From 112f5d5be89a0ebb6b8ea5242f3716ce5d099d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:36 +0000
Subject: [PATCH 16/28] fix: asking an empty unsigned interval for another
 interval

contains(discrete_interval<unsigned>(), discrete_interval<unsigned>(0,0,closed))
computed last([0,0)), which is below the minimum of the domain, and asserted.
---
 include/boost/icl/concept/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index b8f9b67..984d5ff 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -862,7 +862,8 @@ template<class Type>
 inline typename boost::enable_if<is_interval<Type>, bool>::type
 contains(const Type& super, const Type& sub)
 {
-    return icl::is_empty(sub) || non_empty::contains(super, sub);
+    return icl::is_empty(sub)
+        || (!icl::is_empty(super) && non_empty::contains(super, sub));
 }
 
 template<class Type>
-- 
2.43.0


From 7897e51641865b82c6d3c4fc30e37357626f191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:09 +0000
Subject: [PATCH 17/28] fix: icl::map::insert(first, last) accepted only
 iterators of the map itself

---
 include/boost/icl/map.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 7f34437..a3191ce 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -339,9 +339,9 @@ public:
     template<class Iterator>
     iterator insert(Iterator first, Iterator last)
     {
-        iterator prior = end(), it = first;
-        while(it != last)
-            prior = this->insert(prior, *it++);
+        iterator prior = end();
+        for(; first != last; ++first)
+            prior = this->insert(prior, *first);
         return prior;
     }
 
-- 
2.43.0


From 38a3b2168fd16ab2076cc9bdeb892ec76c9a39d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:42 +0000
Subject: [PATCH 18/28] fix: adding with a hint combined the value with a
 default constructed one

---
 include/boost/icl/interval_base_map.hpp | 11 +++--------
 include/boost/icl/map.hpp               |  6 ++++--
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index a43a0f1..b1f1d17 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -568,16 +568,11 @@ protected:
         // Never try to insert an identity element into an identity element absorber here:
         BOOST_ASSERT((!(on_absorbtion<type,Combiner,Traits::absorbs_identities>::is_absorbable(co_val))));
 
+        std::size_t size_before = this->_map.size();
         iterator inserted_ 
-            = this->_map.insert(prior_, value_type(inter_val, Combiner::identity_element()));
+            = this->_map.insert(prior_, value_type(inter_val, version<Combiner>()(co_val)));
 
-        if((*inserted_).first == inter_val && (*inserted_).second == Combiner::identity_element())
-        {
-            Combiner()((*inserted_).second, co_val);
-            return std::pair<iterator,bool>(inserted_, true);
-        }
-        else
-            return std::pair<iterator,bool>(inserted_, false);
+        return std::pair<iterator,bool>(inserted_, this->_map.size() != size_before);
     }
 
     std::pair<iterator, bool>
diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index a3191ce..cbee888 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -617,10 +617,12 @@ typename map<DomainT,CodomainT,Traits,Compare,Combine,Section,Alloc>::iterator
     if(on_absorbtion_::is_absorbable(co_val))
         return end();
 
+    std::size_t size_before = base_type::size();
     iterator inserted_
         = base_type::insert(prior_,
-                            value_type(addend.first, Combiner::identity_element()));
-    Combiner()((*inserted_).second, addend.second);
+                            value_type(addend.first, version<Combiner>()(co_val)));
+    if(base_type::size() == size_before)
+        Combiner()((*inserted_).second, co_val);
 
     if(on_absorbtion_::is_absorbable((*inserted_).second))
     {
-- 
2.43.0


From d89762632160c7f36c782c22d5cbdd7eda25c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:09 +0000
Subject: [PATCH 19/28] fix: an element map constructed from a range stored the
 identities it should absorb

---
 include/boost/icl/map.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index cbee888..89d94a5 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -170,12 +170,12 @@ public:
 
     template <class InputIterator>
     map(InputIterator first, InputIterator past)
-        : base_type(first,past){}
+    { insert(first, past); }
 
     template <class InputIterator>
     map(InputIterator first, InputIterator past, const key_compare& comp)
-        : base_type(first,past,comp)
-    {}
+        : base_type(comp)
+    { insert(first, past); }
 
     map(const map& src)
         : base_type(src)
-- 
2.43.0


From ae10a9de342db1c4ec08e8dbccdf0f3d12f214a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:15 +0000
Subject: [PATCH 20/28] fix: intersecting a set valued element map with a pair
 carrying the empty set

Same as for interval maps: an absorbing map ignores an identity operand, so
the own value survived the second step. Intersect the values first.
---
 include/boost/icl/map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 89d94a5..6b9c86a 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -400,8 +400,9 @@ private:
         const_iterator it_ = find(operand.first);
         if(it_ != end())
         {
-            section.template _add<codomain_combine  >(*it_);
-            section.template _add<codomain_intersect>(operand);
+            codomain_type common_value = (*it_).second;
+            codomain_intersect()(common_value, operand.second);
+            section.template _add<codomain_combine>(element_type(operand.first, common_value));
         }
     }
 
-- 
2.43.0


From 6678d03f3ed9b20cb73040d691886132a7864018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:15 +0000
Subject: [PATCH 21/28] fix: element container functions that could not be
 instantiated

disjoint(x, y) had an undeducible parameter, operator ^=(set, element) used
a member type std::set lacks, and several functions called overloads that
are declared only later or are not provided for element sets.
---
 include/boost/icl/concept/element_associator.hpp | 3 ++-
 include/boost/icl/concept/element_map.hpp        | 9 +++++----
 include/boost/icl/concept/element_set.hpp        | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 87fad3f..cd01098 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -12,6 +12,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/icl/type_traits/is_associative_element_container.hpp>
 #include <boost/icl/type_traits/is_key_container_of.hpp>
 #include <boost/icl/type_traits/is_combinable.hpp>
+#include <boost/icl/detail/associated_value.hpp>
 #include <boost/icl/detail/subset_comparer.hpp>
 #include <boost/icl/concept/element_set.hpp>
 #include <boost/icl/concept/element_map.hpp>
@@ -432,7 +433,7 @@ operator & (Type object, const Type& operand)
 
 template<class Type, class CoType>
 inline typename enable_if<is_associative_element_container<Type>, bool>::type
-disjoint(const Type& left, const Type& right)
+disjoint(const Type& left, const CoType& right)
 {
     return !intersects(left, right);
 }
diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 592add3..c162dc1 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -125,7 +125,7 @@ erase(Type& object, const typename Type::set_type& erasure)
 {
     typedef typename Type::set_type set_type;
     ICL_const_FORALL(typename set_type, elem_, erasure) 
-        icl::erase(object, *elem_); 
+        object.erase(*elem_); 
 
     return object; 
 }
@@ -150,7 +150,8 @@ template <class Type>
 typename enable_if<is_element_map<Type>, Type>::type&
 subtract(Type& object, const typename Type::domain_type& key_value)
 {
-    return icl::erase(object, key_value);
+    object.erase(key_value);
+    return object;
 }
 
 //------------------------------------------------------------------------------
@@ -317,7 +318,7 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , bool>::type
 intersects(const Type& object, const typename Type::domain_type& operand)
 {
-    return icl::contains(object, operand);
+    return !(object.find(operand) == object.end());
 }
 
 template<class Type>
@@ -326,7 +327,7 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , bool>::type
 intersects(const Type& object, const typename Type::set_type& operand)
 {
-    if(object.iterative_size() < operand.iterative_size())
+    if(object.size() < operand.size())
         return Map::intersects(object, operand);
     else
         return Map::intersects(operand, object);
diff --git a/include/boost/icl/concept/element_set.hpp b/include/boost/icl/concept/element_set.hpp
index 8db130e..aabfa9f 100644
--- a/include/boost/icl/concept/element_set.hpp
+++ b/include/boost/icl/concept/element_set.hpp
@@ -70,7 +70,7 @@ template<class Type>
 inline typename enable_if<is_element_set<Type>, bool>::type
 intersects(const Type& object, const Type& operand)
 {
-    if(iterative_size(object) < iterative_size(operand))
+    if(object.size() < operand.size())
         return Set::intersects(object, operand);
     else
         return Set::intersects(operand, object);
@@ -93,7 +93,7 @@ flip(Type& object, const typename Type::value_type& operand)
 
 template<class Type>
 inline typename enable_if<is_element_set<Type>, Type>::type&
-operator ^= (Type& object, const typename Type::element_type& operand)
+operator ^= (Type& object, const typename Type::value_type& operand)
 {
     return icl::flip(object, operand); 
 }
-- 
2.43.0


From 31346a3ec2183add5111960ea4f601f2773d170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:16 +0000
Subject: [PATCH 22/28] fix: x + T(y), x | T(y) and x & T(y) of maps combined
 the values in the wrong order

---
 include/boost/icl/concept/interval_associator.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/icl/concept/interval_associator.hpp b/include/boost/icl/concept/interval_associator.hpp
index 37c92b1..ddbe913 100644
--- a/include/boost/icl/concept/interval_associator.hpp
+++ b/include/boost/icl/concept/interval_associator.hpp
@@ -428,9 +428,10 @@ operator + (Type&& object, const Type& operand)
 
 template<class Type>
 typename enable_if<is_interval_container<Type>, Type>::type
-operator + (const Type& operand, Type&& object)
+operator + (const Type& object, Type&& operand)
 {
-    return boost::move(object += operand); 
+    Type temp = object;
+    return boost::move(temp += operand); 
 }
 
 template<class Type>
@@ -579,9 +580,10 @@ operator | (Type&& object, const Type& operand)
 
 template<class Type>
 typename enable_if<is_interval_container<Type>, Type>::type
-operator | (const Type& operand, Type&& object)
+operator | (const Type& object, Type&& operand)
 {
-    return boost::move(object += operand); 
+    Type temp = object;
+    return boost::move(temp += operand); 
 }
 
 template<class Type>
@@ -867,9 +869,10 @@ operator & (Type&& object, const Type& operand)
 
 template<class Type>
 typename enable_if<is_interval_container<Type>, Type>::type
-operator & (const Type& operand, Type&& object)
+operator & (const Type& object, Type&& operand)
 {
-    return boost::move(object &= operand); 
+    Type temp = object;
+    return boost::move(temp &= operand); 
 }
 
 template<class Type>
-- 
2.43.0


From 65f057465fe2437f9fe7b35512382a746962d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:02 +0000
Subject: [PATCH 23/28] fix: adding a map to itself lost values

---
 include/boost/icl/concept/element_associator.hpp  | 6 +++++-
 include/boost/icl/concept/interval_associator.hpp | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index cd01098..8fbdc77 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -193,7 +193,11 @@ inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator += (Type& object, const Type& operand)
 {
     if(&object == &operand)
-        return object;
+    {
+        // The values of a map are combined with themselves
+        const Type addend(operand);
+        return object += addend;
+    }
 
     typename Type::iterator prior_ = object.end();
     ICL_const_FORALL(typename Type, it_, operand)
diff --git a/include/boost/icl/concept/interval_associator.hpp b/include/boost/icl/concept/interval_associator.hpp
index ddbe913..1bf9cbc 100644
--- a/include/boost/icl/concept/interval_associator.hpp
+++ b/include/boost/icl/concept/interval_associator.hpp
@@ -318,6 +318,13 @@ template<class Type, class OperandT>
 typename enable_if<is_intra_combinable<Type, OperandT>, Type>::type&
 operator += (Type& object, const OperandT& operand)
 {
+    // Adding a map to itself modifies the segments that are iterated over
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+    {
+        const OperandT addend(operand);
+        return object += addend;
+    }
+
     typename Type::iterator prior_ = object.end();
     ICL_const_FORALL(typename OperandT, elem_, operand) 
         prior_ = icl::add(object, prior_, *elem_); 
-- 
2.43.0


From b0deac67de03fc0d349b56faa017813ae1da4181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:50 +0000
Subject: [PATCH 24/28] fix: subtracting an element container from itself used
 erased elements

---
 include/boost/icl/concept/element_associator.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 8fbdc77..38da502 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -311,8 +311,10 @@ template<class Type>
 typename enable_if<is_associative_element_container<Type>, Type>::type&
 erase(Type& object, const Type& erasure)
 {
-    ICL_const_FORALL(typename Type, elem_, erasure)
-        icl::erase(object, *elem_);
+    // Advance before erasing: erasure may be the object itself
+    typename Type::const_iterator elem_ = erasure.begin();
+    while(elem_ != erasure.end())
+        icl::erase(object, *elem_++);
 
     return object;
 }
@@ -340,8 +342,10 @@ template <class Type>
 inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator -= (Type& object, const Type& subtrahend)
 {
-    ICL_const_FORALL(typename Type, it_, subtrahend)
-        icl::subtract(object, *it_);
+    // Advance before subtracting: subtrahend may be the object itself
+    typename Type::const_iterator it_ = subtrahend.begin();
+    while(it_ != subtrahend.end())
+        icl::subtract(object, *it_++);
 
     return object;
 }
-- 
2.43.0


From 549cc02695afe35972e05c06154050145854f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 25/28] fix: subtracting an interval map from itself used
 erased segments

---
 include/boost/icl/concept/interval_associator.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/icl/concept/interval_associator.hpp b/include/boost/icl/concept/interval_associator.hpp
index 1bf9cbc..f85f881 100644
--- a/include/boost/icl/concept/interval_associator.hpp
+++ b/include/boost/icl/concept/interval_associator.hpp
@@ -680,6 +680,13 @@ typename enable_if<is_concept_compatible<is_interval_map, Type, OperandT>,
                    Type>::type& 
 operator -=(Type& object, const OperandT& operand)
 {
+    // Subtracting a map from itself modifies the segments that are iterated over
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+    {
+        const OperandT subtrahend(operand);
+        return object -= subtrahend;
+    }
+
     ICL_const_FORALL(typename OperandT, elem_, operand) 
         icl::subtract(object, *elem_);
 
-- 
2.43.0


From e446cf2a4f689406cbc7f9c91cdbef8c273c8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 26/28] fix: flipping an interval map by itself used joined
 segments

---
 include/boost/icl/concept/interval_map.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index b682696..15bafd8 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -540,6 +540,13 @@ flip(Type& object, const OperandT& operand)
     typedef typename OperandT::const_iterator const_iterator;
     //CL typedef typename Type::codomain_type  codomain_type;
 
+    // Flipping a map by itself modifies the segments that are iterated over
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+    {
+        const OperandT flipped(operand);
+        return icl::flip(object, flipped);
+    }
+
     const_iterator common_lwb, common_upb;
 
     if(!Set::common_range(common_lwb, common_upb, operand, object))
-- 
2.43.0


From 99e2410c29bdc80fdaa246920be489b85cbc8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:58 +0000
Subject: [PATCH 27/28] fix: reverse element iteration with boost::container as
 the implementation

---
 include/boost/icl/detail/element_iterator.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index f7bfe6d..6f6df18 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -8,6 +8,12 @@ Copyright (c) 2009-2009: Joachim Faulhaber
 #ifndef BOOST_ICL_DETAIL_ELEMENT_ITERATOR_HPP_JOFA_091104
 #define BOOST_ICL_DETAIL_ELEMENT_ITERATOR_HPP_JOFA_091104
 
+#include <boost/icl/impl_config.hpp>
+
+#if defined(ICL_USE_BOOST_MOVE_IMPLEMENTATION)
+#   include <boost/container/set.hpp>
+#endif
+
 #include <boost/mpl/if.hpp>
 #include <boost/iterator/iterator_facade.hpp>
 #include <boost/icl/type_traits/is_increasing.hpp>
@@ -63,6 +69,15 @@ struct is_reverse<std::reverse_iterator<BaseIteratorT> >
     BOOST_STATIC_CONSTANT(bool, value = true);
 };
 
+#if defined(ICL_USE_BOOST_MOVE_IMPLEMENTATION)
+template<class BaseIteratorT>
+struct is_reverse<boost::container::reverse_iterator<BaseIteratorT> >
+{ 
+    typedef is_reverse<boost::container::reverse_iterator<BaseIteratorT> > type; 
+    BOOST_STATIC_CONSTANT(bool, value = true);
+};
+#endif
+
 template<class BaseIteratorT>
 struct is_reverse<icl::element_iterator<BaseIteratorT> >
 { 
-- 
2.43.0


From f6f45410754c444b2cdd20188ccae5a9c406821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:58 +0000
Subject: [PATCH 28/28] fix: comparing and iterating containers over
 user-defined interval types did not compile

---
 include/boost/icl/concept/interval_set_value.hpp | 2 +-
 include/boost/icl/detail/element_comparer.hpp    | 2 ++
 include/boost/icl/detail/element_iterator.hpp    | 3 ++-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/interval_set_value.hpp b/include/boost/icl/concept/interval_set_value.hpp
index 027616e..167fa47 100644
--- a/include/boost/icl/concept/interval_set_value.hpp
+++ b/include/boost/icl/concept/interval_set_value.hpp
@@ -23,7 +23,7 @@ inline typename enable_if<is_interval_set<Type>, typename Type::codomain_type>::
 co_value(Iterator value_)
 { 
     typedef typename Type::codomain_type codomain_type;
-    return icl::is_empty(*value_)? codomain_type() : (*value_).lower(); 
+    return icl::is_empty(*value_)? codomain_type() : icl::lower(*value_); 
 }
 
 }} // namespace boost icl
diff --git a/include/boost/icl/detail/element_comparer.hpp b/include/boost/icl/detail/element_comparer.hpp
index 198fce8..a4a75d0 100644
--- a/include/boost/icl/detail/element_comparer.hpp
+++ b/include/boost/icl/detail/element_comparer.hpp
@@ -11,6 +11,8 @@ Copyright (c) 2008-2009: Joachim Faulhaber
 #include <boost/mpl/and.hpp>
 #include <boost/icl/type_traits/is_map.hpp>
 #include <boost/icl/detail/notate.hpp>
+#include <boost/icl/concept/map_value.hpp>
+#include <boost/icl/concept/interval_set_value.hpp>
 #include <boost/icl/type_traits/identity_element.hpp>
 
 namespace boost{namespace icl
diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index 6f6df18..144bf4c 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -16,6 +16,7 @@ Copyright (c) 2009-2009: Joachim Faulhaber
 
 #include <boost/mpl/if.hpp>
 #include <boost/iterator/iterator_facade.hpp>
+#include <boost/type_traits/remove_const.hpp>
 #include <boost/icl/type_traits/is_increasing.hpp>
 #include <boost/icl/type_traits/succ_pred.hpp>
 #include <boost/icl/detail/mapped_reference.hpp>
@@ -285,7 +286,7 @@ public:
     typedef element_iterator                                type;
     typedef SegmentIteratorT                                segment_iterator;
     typedef typename SegmentIteratorT::value_type           segment_type;
-    typedef typename first_element<segment_type>::type      interval_type;
+    typedef typename remove_const<typename first_element<segment_type>::type>::type interval_type;
     typedef typename elemental<segment_type>::type          element_type;
     typedef typename elemental<segment_type>::domain_type   domain_type;
     typedef typename elemental<segment_type>::codomain_type codomain_type;
-- 
2.43.0

