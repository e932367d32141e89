From a05c31a64290bbe7e2aa6292d66956132dc7a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 01/67] fix: take d2fdydz of TriCubicInterpolator from the y
 line just differentiated

---
 src/tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 75788f0..701c745 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -569,7 +569,7 @@ d3fdxdydz(data.get_extents(),nusquids::detail::no_init)
 			spline.initialize(ycoords.get_data(),yslice.get_data(),jMax);
 			spline.getAbscissaDerivatives(yslice);
 			for(std::size_t j=0; j!=jMax; j++)
-				d2fdydz[k][j][i]=xslice[j];
+				d2fdydz[k][j][i]=yslice[j];
 		}
 	}
 	
-- 
2.43.0


From fe9a32858619c2a184b7e6a1b9624aaa85bdcf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 02/67] fix: keep the column count of a text table across blank
 lines

---
 src/tools.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 701c745..944c4b1 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -51,7 +51,7 @@ marray<double,2> quickread(std::string filepath){
 
     std::vector< std::vector<double> > table;
     std::string line;
-    size_t column_number = -1;
+    size_t column_number = 0;
     while(getline(infile,line)){
         std::vector<double> row;
         std::stringstream linestream(line);
@@ -66,10 +66,9 @@ marray<double,2> quickread(std::string filepath){
             #endif
             if(!table.empty() and column_number != row.size())
               throw std::runtime_error("nuSQuIDS::tools::quickread: Number of columns in file not equal.");
+            column_number = row.size();
             table.push_back(row);
         }
-
-        column_number = row.size();
     }
 
     marray<double,2> otable {table.size(),column_number};
-- 
2.43.0


From 6dfb13c67c69edc2d6f3b7752f7ee0c2c7170b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 03/67] fix: make IntegrateWorkspace non-copyable, as copies
 release the same workspace

---
 include/nuSQuIDS/tools.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 8ffef6a..322b691 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -99,6 +99,9 @@ public:
     IntegrateWorkspace(size_t limit) {
         ws=gsl_integration_workspace_alloc(limit);
     }
+    //a copy would free the same workspace again
+    IntegrateWorkspace(const IntegrateWorkspace&)=delete;
+    IntegrateWorkspace& operator=(const IntegrateWorkspace&)=delete;
     ~IntegrateWorkspace() {
         gsl_integration_workspace_free(ws);
     }
-- 
2.43.0


From 9f5674fc5f0203f2a6a6a10af25c430005369498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 04/67] fix: compute AdaptiveQuad end values before the limits
 are reversed, so that Options::fa and fb keep belonging to the caller's end
 points

---
 include/nuSQuIDS/AdaptiveQuad.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 479e83e..a56ef1c 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -182,13 +182,6 @@ namespace AdaptiveQuad{
 		if(tol<std::numeric_limits<double>::epsilon())
 			throw std::runtime_error("Specified tolerance too small");
 		
-		//ensure that the interval is left to right, to simplify internals
-		bool reverse=false;
-		if(a>b){
-			std::swap(a,b);
-			reverse=true;
-		}
-		
 		//compute function endpoint values if not given
 		double fa,fb;
 		if(options && !std::isnan(options->fa))
@@ -204,6 +197,14 @@ namespace AdaptiveQuad{
 			if(options) options->fb=fb;
 		}
 		
+		//ensure that the interval is left to right, to simplify internals
+		bool reverse=false;
+		if(a>b){
+			std::swap(a,b);
+			std::swap(fa,fb);
+			reverse=true;
+		}
+		
 		//create initial interval with function endpoint values
 		Interval i(a,b,fa,fb);
 		if(!i.canSubdivide())
-- 
2.43.0


From c05a5fa8b3fc182fdf9dfc0792b0a5b2c37b411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 05/67] fix: record the whole offset of an aligned block, which
 does not fit in a byte for alignments of 256 and above

---
 include/nuSQuIDS/aligned_alloc.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 5d27366..a6b4e3a 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -25,6 +25,7 @@
 #ifndef NUSQUIDS_ALIGNED_ALLOC_H
 #define NUSQUIDS_ALIGNED_ALLOC_H
 
+#include <cstring>
 #include <limits>
 
 //An allocator which allocates blocks aligned to 2^n bytes for a user selected n.
@@ -79,7 +80,7 @@ public:
 	
 	///\returns The largest value N for which the call allocate(N,0) might succeed.
 	size_type max_size(){
-		return((std::numeric_limits<size_type>::max()-get_align())/sizeof(T));
+		return((std::numeric_limits<size_type>::max()-get_align()-sizeof(size_type))/sizeof(T));
 	}
 	
 	template <class U, class... Args>
@@ -111,23 +112,26 @@ public:
 		
 		size_type needed=n*sizeof(T);
 		size_type alignment=get_align();
-		needed+=alignment; //include space to do our thing
+		needed+=alignment+sizeof(size_type); //include space to do our thing
 		
 		//try to get memory
 		void* ptr=new char[needed];
 		
 		//align!
-		uint8_t offset=alignment-reinterpret_cast<size_type>(ptr)%alignment;
+		//Leave enough space to record how far the block is from the start of the memory.
+		//The distance can be as large as the alignment, so it does not fit in a byte. 
 		//Note that since align is a power of 2, align-1 forms a mask with the low
 		//align_pow bits set. Its negation will then preserve only the higher bits
 		//of ptr, effectively flooring it to the nearest multiple of align. Adding
-		//align then preserves this alignment, and ensures that at least one byte 
-		//of padding is before ptr. 
+		//align-1 first rounds up instead. 
 		//This trick borrowed from Johan Mabille
 		//https://jmabille.github.io/blog/2014/12/06/aligned-memory-allocator/
-		ptr=reinterpret_cast<void*>((reinterpret_cast<size_type>(ptr) & ~(alignment-1))+alignment);
-		//Stash the offset in our guaranteed byte of padding where we can find it later
-		*((uint8_t*)ptr-1)=offset;
+		size_type start=reinterpret_cast<size_type>(ptr);
+		size_type block=(start+sizeof(size_type)+alignment-1) & ~(alignment-1);
+		size_type offset=block-start;
+		ptr=reinterpret_cast<void*>(block);
+		//Stash the offset in our guaranteed padding where we can find it later
+		std::memcpy((uint8_t*)ptr-sizeof(offset),&offset,sizeof(offset));
 		
 		return(pointer(ptr));
 	}
@@ -138,7 +142,8 @@ public:
 		
 		uint8_t* ptr=(uint8_t*)p;
 		//find our stashed offset value
-		uint8_t offset=*(ptr-1);
+		size_type offset;
+		std::memcpy(&offset,ptr-sizeof(offset),sizeof(offset));
 		//recover the real pointer
 		ptr-=offset;
 		delete[] ptr;
-- 
2.43.0


From 0e28e242732b6342b682f01cc8b28ba4b0c781d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 06/67] fix: compute marray strides, segment counts and totals
 in size_type

---
 include/nuSQuIDS/marray.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 65a5f86..779d293 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -848,7 +848,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -864,7 +864,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -882,7 +882,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -900,7 +900,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -947,9 +947,9 @@ public:
 private:
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1004,9 +1004,9 @@ private:
 	
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1058,9 +1058,9 @@ public:
 private:
 	void erase(size_type dim, size_type pos, size_t num, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1068,7 +1068,7 @@ private:
 		value_type* write_pos=new_data;
 		value_type* read_pos=data;
 		
-		for(unsigned int i=0; i<iterations; i++){
+		for(size_type i=0; i<iterations; i++){
 			for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 				allocator_traits::construct(allocator(),write_pos,std::move(*read_pos));
 			read_pos+=num*chunk_size; //skip the items being erased
@@ -1084,9 +1084,9 @@ private:
 	
 	void erase(size_type dim, size_type pos, size_t num, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1095,7 +1095,7 @@ private:
 		value_type* read_pos=data;
 		
 		try{
-			for(unsigned int i=0; i<iterations; i++){
+			for(size_type i=0; i<iterations; i++){
 				for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 					allocator_traits::construct(allocator(),write_pos,*read_pos);
 				read_pos+=num*chunk_size; //skip the items being erased
@@ -1127,9 +1127,9 @@ public:
 		assert(pos+num<=extents[dim]);
 		
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1140,7 +1140,7 @@ public:
 		constexpr bool move=std::is_nothrow_move_constructible<value_type>::value
 		  && std::is_nothrow_move_assignable<value_type>::value;
 		try{
-			for(unsigned int i=0; i<iterations; i++){
+			for(size_type i=0; i<iterations; i++){
 				for(size_type j=0; j!=pos*chunk_size; j++,write_pos++,read_pos++)
 					allocator_traits::construct(allocator(),write_pos,(move?std::move(*read_pos):*read_pos));
 				read_pos+=num*chunk_size; //skip the items being erased
@@ -1170,7 +1170,7 @@ public:
 	void reshape(const Container& new_extents){
 		if(std::distance(std::begin(new_extents),std::end(new_extents))!=Rank)
 			throw std::logic_error("Incorrect number of dimensions when attempting to reshape multidimensional array");
-		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),1u,std::multiplies<size_type>());
+		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),size_type(1),std::multiplies<size_type>());
 		if(new_total_size!=total_size())
 			throw std::logic_error("Inconsistent total size when attempting to reshape multidimensional array");
 		std::copy_n(std::begin(new_extents),Rank,extents.begin());
-- 
2.43.0


From 9a8b4ce777725b8b0262aa968dc5c8efbb3c196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 07/67] fix: constant marray::back returned a reference to a
 temporary

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 779d293..55b7113 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1287,7 +1287,7 @@ public:
 	reference front(){ return(data[0]); }
 	const_reference front() const { return(data[0]); }
 	reference back(){ return(data[size()-1]); }
-	const_reference back() const { return(size()-1); }
+	const_reference back() const { return(data[size()-1]); }
 	
 	///Get the allocator currently used by the array
 	allocator_type get_allocator() const{ return(allocator()); }
-- 
2.43.0


From 16f4c5aa00d98b3f2b85bdfc571c0bca639dbec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 08/67] fix: marray::swap could not be instantiated

---
 include/nuSQuIDS/marray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 55b7113..ca2b55c 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -914,13 +914,13 @@ public:
 	//TODO: noexcept condition is wrong if swap(allocator_type&,allocator_type&) is found via ADL
 	///Swap contents with another array
 	void swap(marray& other)
-	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type>(),std::declval<allocator_type>())))
+	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type&>(),std::declval<allocator_type&>())))
 	{
 		using std::swap;
 		for(unsigned int i=0; i<Rank; i++)
 			swap(extents[i],other.extents[i]);
 		swap(total_size(),other.total_size());
-		swap_allocator(other.allocator(),allocator_traits::propagate_on_container_swap());
+		swap_allocator(other.allocator(),typename allocator_traits::propagate_on_container_swap());
 		swap(data,other.data);
 	}
 	
-- 
2.43.0


From 9e3d24be217d327592e5981bdc1be061ece9670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 09/67] fix: release the new buffer of a failed marray
 assignment with the allocator and size it was obtained with

---
 include/nuSQuIDS/marray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index ca2b55c..c530179 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -486,7 +486,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),new_allocator,other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(new_allocator,new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -499,7 +499,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(allocator(),new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -526,7 +526,7 @@ private:
 			try{
 				copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 			}catch(...){
-				allocator_traits::deallocate(allocator(),new_data,total_size());
+				allocator_traits::deallocate(allocator(),new_data,other.total_size());
 				throw;
 			}
 			//----
-- 
2.43.0


From 38c09deb3c9e0218254f9f5439cbe22899c3ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 10/67] fix: exchange the allocators along with the buffers
 when move assigning marrays

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index c530179..a264f84 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -512,7 +512,7 @@ private:
 		swap(extents,other.extents);
 		swap(data,other.data);
 		swap(total_size(),other.total_size());
-		allocator()=std::move(other.allocator());
+		swap(allocator(),other.allocator());
 	}
 	void move_assign(marray&& other, std::false_type dont_replace_allocator){
 		using std::swap;
-- 
2.43.0


From 67602d0d09d33cb09214a6de39f13d29a53ae2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 11/67] fix: marray constructors released no storage when
 refusing an initializer of the wrong shape, and assigned to elements which
 were never constructed

---
 include/nuSQuIDS/marray.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index a264f84..7227ce2 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -729,11 +729,11 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		//ensure that the initializer has the correct shape
-		detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
-		
 		pointer write_pos=data;
 		try{
+			//ensure that the initializer has the correct shape
+			detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
+			
 			detail::multidimensional_initializer<value_type,Rank,allocator_type,Rank>::initialize(init,allocator(),write_pos);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
@@ -759,13 +759,13 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		if(std::distance(init_begin,init_end)!=total_size())
-			throw std::logic_error("Iterator range has wrong size to initialize marray");
-		
 		pointer write_pos=data;
 		try{
+			if(std::distance(init_begin,init_end)!=total_size())
+				throw std::logic_error("Iterator range has wrong size to initialize marray");
+			
 			for(; init_begin!=init_end; init_begin++, write_pos++)
-				*write_pos = *init_begin;
+				allocator_traits::construct(allocator(),write_pos,*init_begin);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
 				allocator_traits::destroy(allocator(),p);
-- 
2.43.0


From 3c346463747d7e6b4422a1e3c6aa62b46997a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 12/67] fix: count an marray element as constructed only once
 its constructor has returned

---
 include/nuSQuIDS/marray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 7227ce2..9bafb1f 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -349,8 +349,10 @@ struct multidimensional_initializer{
 template<typename T, unsigned int Rank, typename Allocator>
 struct multidimensional_initializer<T,Rank,Allocator,1>{
 	static void initialize(const typename detail::initializer_for_rank<T,1>::type& init, Allocator& alloc, T*& write_ptr){
-		for(const auto& i : init)
-			std::allocator_traits<Allocator>::construct(alloc,write_ptr++,i);
+		for(const auto& i : init){
+			std::allocator_traits<Allocator>::construct(alloc,write_ptr,i);
+			write_ptr++;
+		}
 	}
 	static void assign(const typename detail::initializer_for_rank<T,1>::type& init, T*& write_ptr){
 		for(const auto& i : init)
-- 
2.43.0


From 58b076bc32be4e379ea64752963411ee6bcc0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 13/67] fix: divide a scalar by an marray, instead of the array
 by the scalar, and leave division of two arrays to its own operator

---
 include/nuSQuIDS/marray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 9bafb1f..469667a 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1589,9 +1589,12 @@ typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
-template<typename T, unsigned Rank, typename U>
+template<typename T, unsigned Rank, typename U,
+typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
-	return(marray<T,Rank>(a)/=f);
+	marray<T,Rank> result(a);
+	for(auto& i : result) i=f/i;
+	return(result);
 }
 
 namespace detail{
-- 
2.43.0


From edacdad600126791a8b74c3486d5bae4f6015a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 14/67] fix: binary functions of marrays of one type did not
 compile, and tgamma was misspelt

---
 include/nuSQuIDS/marray.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 469667a..02c40e6 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1876,6 +1876,7 @@ using std::sqrt;
 using std::cbrt;
 using std::erf;
 using std::erfc;
+using std::tgamma;
 using std::lgamma;
 using std::ceil;
 using std::floor;
@@ -1916,7 +1917,7 @@ UNARY_MARRAY_FUNC(sqrt);
 UNARY_MARRAY_FUNC(cbrt);
 UNARY_MARRAY_FUNC(erf);
 UNARY_MARRAY_FUNC(erfc);
-UNARY_MARRAY_FUNC(tgmama);
+UNARY_MARRAY_FUNC(tgamma);
 UNARY_MARRAY_FUNC(lgamma);
 UNARY_MARRAY_FUNC(ceil);
 UNARY_MARRAY_FUNC(floor);
@@ -1942,9 +1943,9 @@ template<typename T, unsigned Rank> \
 marray<T,Rank> fname(const marray<T,Rank>& a1, const marray<T,Rank>& a2){ \
 	if(a1.get_extents()==a2.get_extents()){ \
 		marray<T,Rank> result(a1); \
-		for(auto ri=result.begin(),i1=a1.begin(),i2=a2.begin(),re=result.end; \
-			ri!=re; ri++,i1++,i2++) \
-			*ri=fname(*i1,*i2); \
+		auto i1=a1.begin(), i2=a2.begin(); \
+		for(auto& e : result) \
+			e=fname(*i1++,*i2++); \
 		return(result); \
 	} \
 	return(applyOp(a1,a2,[](const T& t1, const T& t2){return(fname(t1,t2));})); \
-- 
2.43.0


From f12a6d682f5a9c1b592dedb5a9b95e8084a2bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 15/67] fix: tau decay spectrum accessors read outside their
 tables for a particle type which is not in them

---
 src/taudecay.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/taudecay.cpp b/src/taudecay.cpp
index 9c23041..c946f7c 100644
--- a/src/taudecay.cpp
+++ b/src/taudecay.cpp
@@ -160,25 +160,25 @@ void TauDecaySpectra::Init(marray<double,1> E_range){
 // tau decay spectra returned in units of [GeV^-1]
 
 double TauDecaySpectra::dNdEnu_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
+  if(neutrino_type >= dNdEnu_All_tbl.extent(0) or i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_All in valid index choices");
   return dNdEnu_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEnu_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
+  if(neutrino_type >= dNdEnu_Lep_tbl.extent(0) or i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_Lep in valid index choices");
   return dNdEnu_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
+  if(neutrino_type >= dNdEle_All_tbl.extent(0) or i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEle_All in valid index choices");
   return dNdEle_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
+  if(neutrino_type >= dNdEle_Lep_tbl.extent(0) or i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
     throw std::runtime_error("TauDecaySpectra:dNdEle_Lepin valid index choices");
   return dNdEle_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
-- 
2.43.0


From 2e0d5d5c9af2e0a824f76e695dc0a3d441fb9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 16/67] fix: the leptonic tau decay spectrum was negative for
 neutrinos with more energy than the tau

---
 src/taudecay.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/taudecay.cpp b/src/taudecay.cpp
index c946f7c..4464cec 100644
--- a/src/taudecay.cpp
+++ b/src/taudecay.cpp
@@ -38,6 +38,9 @@ namespace nusquids{
 
 double TauDecaySpectra::TauDecayToLepton(double E_tau,double E_nu) const{
     double z = E_nu/E_tau;
+    if (z > 1.0) {
+        return 0.0;
+    }
     double g0 = 5.0/3.0-3.0*pow(z,2.0)+(4.0/3.0)*pow(z,3.0);
     double g1 = 1.0/3.0-3.0*pow(z,2.0)+(8.0/3.0)*pow(z,3.0);
 
-- 
2.43.0


From e29413efc16674c8848c00eed31cd96e5ae9bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 17/67] fix: a moved-from H5File owns nothing

---
 include/nuSQuIDS/tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 322b691..a3e04d7 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -261,10 +261,10 @@ struct H5File{
     hid_t id;
     H5File(hid_t id):id(id){}
     H5File(const H5File&)=delete;
-    H5File(H5File&& h):id(h.id){ h.id=0; }
+    H5File(H5File&& h):id(h.id){ h.id=-1; }
     H5File& operator=(const H5File&)=delete;
     H5File& operator=(H5File&& h){ std::swap(id,h.id); return *this;}
-    ~H5File(){ H5Fclose(id); }
+    ~H5File(){ if(id>=0) H5Fclose(id); }
     operator hid_t() const{ return(id); }
 };
 
-- 
2.43.0


From 518177f465261cc9ce8104d5c39a76f3cd00e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 18/67] fix: readArrayH5 closes the dataset and its dataspace
 on every exit and checks the extents

---
 include/nuSQuIDS/tools.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index a3e04d7..4459b35 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -363,22 +363,20 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
 
 template<typename T, unsigned int Rank, typename Alloc>
 void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>& data){
-    hid_t array_id=H5Dopen2(container, name.c_str(), H5P_DEFAULT);
-    if(array_id<0)
-        throw std::runtime_error("Failed to open dataset '"+name+"'");
+    const std::string desc="open dataset '"+name+"'";
+    H5Handle array_id(H5Dopen2(container, name.c_str(), H5P_DEFAULT),H5Dclose,desc.c_str());
     hid_t dType=h5Datatype<T>::type();
-    hid_t dSpace = H5Dget_space(array_id);
+    H5Handle dSpace(H5Dget_space(array_id),H5Sclose,"get dataspace");
     int raw_dim = H5Sget_simple_extent_ndims(dSpace);
     if(raw_dim!=Rank)
         throw std::runtime_error("Failed to read marray from HDF5: source array has rank "
                                  +std::to_string(raw_dim)+" but target array has rank "
                                  +std::to_string(Rank));
     std::array<hsize_t,Rank> extents;
-    H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
-    H5Sclose(dSpace);
+    if(H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr)<0)
+        throw std::runtime_error("Failed to get extents of dataset '"+name+"'");
     data.resize(extents);
     herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
-    H5Dclose(array_id);
     if(err<0)
         throw std::runtime_error("Failed to array data from HDF5");
 }
-- 
2.43.0


From 3aba8fe5289d9f6a77b0c3b0e86d7ff52bba34f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 19/67] fix: writeArrayH5 reports every failing call, closes
 everything, and stores empty arrays unchunked

---
 include/nuSQuIDS/tools.h | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 4459b35..4d61a71 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -324,11 +324,13 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     hid_t destType=h5Datatype<DestType>::type();
     std::array<hsize_t,Rank> extents;
     std::copy_n(data.get_extents().begin(),Rank,extents.begin());
-    hid_t dSpace=H5Screate_simple(Rank, &extents[0], nullptr);
+    H5Handle dSpace(H5Screate_simple(Rank, &extents[0], nullptr),H5Sclose,"create dataspace");
+    H5Handle plist;
     hid_t plist_id=H5P_DEFAULT;
-    if(compressLevel){
+    if(compressLevel && !data.empty()){ //chunks cannot be empty
         assert(compressLevel<=9);
-        plist_id = H5Pcreate(H5P_DATASET_CREATE);
+        plist = H5Handle(H5Pcreate(H5P_DATASET_CREATE),H5Pclose,"create property list");
+        plist_id = plist;
         std::array<hsize_t,Rank> chunkDims;
         unsigned long size=sizeof(DestType);
         const unsigned long targetChunkSize=1UL<<16; //64KB seems like a good size
@@ -343,19 +345,14 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
             else
                 chunkDims[i-1]=1;
         }
-        H5Pset_chunk(plist_id, Rank, &chunkDims[0]);
-        H5Pset_deflate(plist_id, compressLevel);
+        if(H5Pset_chunk(plist_id, Rank, &chunkDims[0])<0 || H5Pset_deflate(plist_id, compressLevel)<0)
+            throw std::runtime_error("Failed to set compression for dataset '"+name+"'");
     }
     
-    hid_t dSet=H5Dcreate(loc_id, name.c_str(),destType,dSpace,H5P_DEFAULT,plist_id,H5P_DEFAULT);
+    const std::string desc="create dataset '"+name+"'";
+    H5Handle dSet(H5Dcreate(loc_id, name.c_str(),destType,dSpace,H5P_DEFAULT,plist_id,H5P_DEFAULT),H5Dclose,desc.c_str());
     herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
-    
-    //need to close whether or not there's an error
-    if(compressLevel)
-        H5Pclose(plist_id);
-    H5Dclose(dSet);
-    H5Sclose(dSpace);
-    
+
     if(err<0)
         throw std::runtime_error("Failed to write marray to HDF5 (name: "
                                  +name+" error: "+std::to_string(err)+")");
-- 
2.43.0


From 80a3763c404520117ed8948d1353ff3de95eeeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 20/67] fix: HDF5 attribute helpers report failing calls, close
 everything, and refuse mismatched contents

---
 include/nuSQuIDS/tools.h | 31 +++++++++++++------------------
 src/tools.cpp            | 39 +++++++++++++++++++--------------------
 2 files changed, 32 insertions(+), 38 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 4d61a71..ceca1b0 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -382,11 +382,11 @@ template<typename T>
 void addH5Attribute(hid_t object, std::string name, const T& contents){
     hid_t dtype=h5Datatype<T>::type();
     hsize_t dim=1;
-    hid_t dataspace_id=H5Screate_simple(1, &dim, nullptr);
-    hid_t attribute_id=H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id,dtype,&contents);
-    H5Aclose(attribute_id);
-    H5Sclose(dataspace_id);
+    const std::string desc="create attribute '"+name+"'";
+    H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr),H5Sclose,"create dataspace");
+    H5Handle attribute_id(H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),H5Aclose,desc.c_str());
+    if(H5Awrite(attribute_id,dtype,&contents)<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
@@ -394,25 +394,20 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
 
 template<typename T>
 void readH5Attribute(hid_t object, std::string name, T& dest){
-    hid_t attribute_id=H5Aopen(object, name.c_str(), H5P_DEFAULT);
-    hid_t actualType=H5Aget_type(attribute_id);
+    const std::string desc="open attribute '"+name+"'";
+    H5Handle attribute_id(H5Aopen(object, name.c_str(), H5P_DEFAULT),H5Aclose,desc.c_str());
+    H5Handle actualType(H5Aget_type(attribute_id),H5Tclose,"get attribute type");
+    H5Handle dataspace_id(H5Aget_space(attribute_id),H5Sclose,"get attribute dataspace");
     hid_t expectedType=h5Datatype<T>::type();
     
     //TODO: this may be too harsh; it ignores whether conversion is possible
-    if(H5Tequal(actualType, expectedType)<=0){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    if(H5Tequal(actualType, expectedType)<=0)
         throw std::runtime_error("Expected and actual data types for attribute '"+name+"' do not match");
-    }
+    if(H5Sget_simple_extent_npoints(dataspace_id)!=1)
+        throw std::runtime_error("Attribute '"+name+"' does not hold a single value");
     
-    if(H5Aread(attribute_id, expectedType, &dest)<0){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    if(H5Aread(attribute_id, expectedType, &dest)<0)
         throw std::runtime_error("Failed to read attribute '"+name+"'");
-    }
-    
-    H5Aclose(attribute_id);
-    H5Tclose(actualType);
 }
 
 template<>
diff --git a/src/tools.cpp b/src/tools.cpp
index 944c4b1..1944c40 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -806,38 +806,37 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
     
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
-    hid_t strtype = H5Tcopy(H5T_C_S1);
-    H5Tset_size(strtype, contents.size());
+    const std::string desc="create attribute '"+name+"'";
+    H5Handle strtype(H5Tcopy(H5T_C_S1),H5Tclose,"create string type");
+    if(H5Tset_size(strtype, contents.size())<0)
+        throw std::runtime_error("Failed to set size of attribute '"+name+"'");
     hsize_t dim=1;
-    hid_t dataspace_id = H5Screate_simple(1, &dim, nullptr);
-    hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id, strtype, &contents[0]);
-    H5Aclose(attribute_id);
-    H5Sclose(dataspace_id);
+    H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr),H5Sclose,"create dataspace");
+    H5Handle attribute_id(H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),H5Aclose,desc.c_str());
+    if(H5Awrite(attribute_id, strtype, &contents[0])<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
 void readH5Attribute<std::string>(hid_t object, std::string name, std::string& dest){
-    hid_t attribute_id = H5Aopen(object, name.c_str(), H5P_DEFAULT);
-    hid_t actualType = H5Aget_type(attribute_id);
+    const std::string desc="open attribute '"+name+"'";
+    H5Handle attribute_id(H5Aopen(object, name.c_str(), H5P_DEFAULT),H5Aclose,desc.c_str());
+    H5Handle actualType(H5Aget_type(attribute_id),H5Tclose,"get attribute type");
+    H5Handle dataspace_id(H5Aget_space(attribute_id),H5Sclose,"get attribute dataspace");
     H5T_class_t typeClass = H5Tget_class(actualType);
-    if(typeClass!=H5T_STRING){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    //variable length strings are stored as pointers, not characters
+    if(typeClass!=H5T_STRING || H5Tis_variable_str(actualType)!=0)
         throw std::runtime_error("Expected and actual data types for attribute '"+name+"' do not match");
-    }
+    if(H5Sget_simple_extent_npoints(dataspace_id)!=1)
+        throw std::runtime_error("Attribute '"+name+"' does not hold a single value");
     
     size_t size = H5Tget_size(actualType);
+    if(size==0)
+        throw std::runtime_error("Failed to get size of attribute '"+name+"'");
     dest.resize(size);
     
-    if(H5Aread(attribute_id, actualType, &dest[0])<0){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    if(H5Aread(attribute_id, actualType, &dest[0])<0)
         throw std::runtime_error("Failed to read attribute '"+name+"'");
-    }
-    
-    H5Aclose(attribute_id);
-    H5Tclose(actualType);
 }
 
 } // close namespace
-- 
2.43.0


From 8f4c8825cffbb0a3dac1befdbce62ee631487d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 21/67] fix: body attribute helpers report failing HDF5 calls
 and close everything they open

---
 src/body.cpp | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 96d6a0b..709487f 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -51,14 +51,7 @@ namespace {
 squids::Const param;
 
 void addStringAttribute(hid_t object, std::string name, std::string contents){
-  hid_t strtype = H5Tcopy(H5T_C_S1);
-  H5Tset_size(strtype, contents.size());
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, strtype, &contents[0]);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  addH5Attribute(object,name,contents);
 }
 
 //not currently used
@@ -80,39 +73,35 @@ std::string readStringAttribute(hid_t object, std::string name){
 
 void addDoubleAttribute(hid_t object, std::string name, double value){
   hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),H5T_IEEE_F64LE,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, H5T_IEEE_F64LE, &value);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  H5Handle dataspace_id(H5Screate_simple(1, &dim, NULL),H5Sclose,"create dataspace");
+  H5Handle attribute_id(H5Acreate(object,name.c_str(),H5T_IEEE_F64LE,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),H5Aclose,"create attribute");
+  if(H5Awrite(attribute_id, H5T_IEEE_F64LE, &value)<0)
+    throw std::runtime_error("Failed to write attribute '"+name+"'");
 }
 
 double readDoubleAttribute(hid_t object, std::string name){
   double target;
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
+  H5Handle attribute_id(H5Aopen(object,name.c_str(),H5P_DEFAULT),H5Aclose,"open attribute");
   herr_t status = H5Aread(attribute_id, H5T_NATIVE_DOUBLE, &target);
   if(status<0)
     throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
   return target;
 }
 
 void addUIntAttribute(hid_t object, std::string name, unsigned int value){
   hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),H5T_NATIVE_UINT,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, H5T_NATIVE_UINT, &value);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  H5Handle dataspace_id(H5Screate_simple(1, &dim, NULL),H5Sclose,"create dataspace");
+  H5Handle attribute_id(H5Acreate(object,name.c_str(),H5T_NATIVE_UINT,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),H5Aclose,"create attribute");
+  if(H5Awrite(attribute_id, H5T_NATIVE_UINT, &value)<0)
+    throw std::runtime_error("Failed to write attribute '"+name+"'");
 }
 
 unsigned int readUIntAttribute(hid_t object, std::string name){
   unsigned int target;
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
+  H5Handle attribute_id(H5Aopen(object,name.c_str(),H5P_DEFAULT),H5Aclose,"open attribute");
   herr_t status = H5Aread(attribute_id, H5T_NATIVE_UINT, &target);
   if(status<0)
     throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
   return target;
 }
 
-- 
2.43.0


From 2201c3b7be10a2e268ce13ac5efb82efaf091900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 22/67] fix: bodies report HDF5 datasets which cannot be
 written, or which do not have the size being read

---
 src/body.cpp | 79 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 709487f..24b111d 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -105,6 +105,20 @@ unsigned int readUIntAttribute(hid_t object, std::string name){
   return target;
 }
 
+void addDoubleDataset(hid_t group, const char* name, const std::vector<double>& data){
+  hsize_t dim=data.size();
+  if(H5LTmake_dataset_double(group, name, 1, &dim, data.data())<0)
+    throw std::runtime_error("Failed to write dataset '"+std::string(name)+"'");
+}
+
+void readDoubleDataset(hid_t group, const char* name, std::vector<double>& data){
+  marray<double,1> stored;
+  readArrayH5(group, name, stored);
+  if(stored.size()!=data.size())
+    throw std::runtime_error("Dataset '"+std::string(name)+"' does not have the expected size");
+  std::copy(stored.begin(),stored.end(),data.begin());
+}
+
 } // close unnamed namespace
 
 
@@ -229,18 +243,17 @@ inter_density(x_arr,density_arr),inter_ye(x_arr,ye_arr)
 void VariableDensity::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "x_arr", 1, dims.data(), x_arr.data());
-  H5LTmake_dataset_double(group, "density_arr", 1, dims.data(), density_arr.data());
-  H5LTmake_dataset_double(group, "ye_arr", 1, dims.data(), ye_arr.data());
+  addDoubleDataset(group, "x_arr", x_arr);
+  addDoubleDataset(group, "density_arr", density_arr);
+  addDoubleDataset(group, "ye_arr", ye_arr);
 }
 
 std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"x_arr",x_vec.data());
-  H5LTread_dataset_double(group,"density_arr",rho_vec.data());
-  H5LTread_dataset_double(group,"ye_arr",ye_vec.data());
+  readDoubleDataset(group,"x_arr",x_vec);
+  readDoubleDataset(group,"density_arr",rho_vec);
+  readDoubleDataset(group,"ye_arr",ye_vec);
   return std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
 }
 
@@ -341,18 +354,17 @@ inter_density(earth_radius,earth_density),inter_ye(earth_radius,earth_ye)
 void Earth::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
-  H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
-  H5LTmake_dataset_double(group, "earth_ye", 1, dims.data(), earth_ye.data());
+  addDoubleDataset(group, "earth_radius", earth_radius);
+  addDoubleDataset(group, "earth_density", earth_density);
+  addDoubleDataset(group, "earth_ye", earth_ye);
 }
 
 std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"earth_radius",x_vec.data());
-  H5LTread_dataset_double(group,"earth_density",rho_vec.data());
-  H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
+  readDoubleDataset(group,"earth_radius",x_vec);
+  readDoubleDataset(group,"earth_density",rho_vec);
+  readDoubleDataset(group,"earth_ye",ye_vec);
   return std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
 }
 
@@ -470,17 +482,16 @@ inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 void Sun::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
-  H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
-  H5LTmake_dataset_double(group, "sun_xh", 1, dims.data(), sun_xh.data());
+  addDoubleDataset(group, "sun_radius", sun_radius);
+  addDoubleDataset(group, "sun_density", sun_density);
+  addDoubleDataset(group, "sun_xh", sun_xh);
 }
 std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),xh_vec(asize);
-  H5LTread_dataset_double(group,"sun_radius",x_vec.data());
-  H5LTread_dataset_double(group,"sun_density",rho_vec.data());
-  H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
+  readDoubleDataset(group,"sun_radius",x_vec);
+  readDoubleDataset(group,"sun_density",rho_vec);
+  readDoubleDataset(group,"sun_xh",xh_vec);
   return std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
 }
 
@@ -598,18 +609,17 @@ std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
 void SunASnu::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
-  H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
-  H5LTmake_dataset_double(group, "sun_xh", 1, dims.data(), sun_xh.data());
+  addDoubleDataset(group, "sun_radius", sun_radius);
+  addDoubleDataset(group, "sun_density", sun_density);
+  addDoubleDataset(group, "sun_xh", sun_xh);
 }
 
 std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),xh_vec(asize);
-  H5LTread_dataset_double(group,"sun_radius",x_vec.data());
-  H5LTread_dataset_double(group,"sun_density",rho_vec.data());
-  H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
+  readDoubleDataset(group,"sun_radius",x_vec);
+  readDoubleDataset(group,"sun_density",rho_vec);
+  readDoubleDataset(group,"sun_xh",xh_vec);
   return std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
 }
 
@@ -725,10 +735,9 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
 void EarthAtm::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
-  H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
-  H5LTmake_dataset_double(group, "earth_ye", 1, dims.data(), earth_ye.data());
+  addDoubleDataset(group, "earth_radius", earth_radius);
+  addDoubleDataset(group, "earth_density", earth_density);
+  addDoubleDataset(group, "earth_ye", earth_ye);
   addH5Attribute(group,"radius",radius);
   addH5Attribute(group,"atm_height",atm_height);
 }
@@ -736,9 +745,9 @@ void EarthAtm::Serialize(hid_t group) const {
 std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"earth_radius",x_vec.data());
-  H5LTread_dataset_double(group,"earth_density",rho_vec.data());
-  H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
+  readDoubleDataset(group,"earth_radius",x_vec);
+  readDoubleDataset(group,"earth_density",rho_vec);
+  readDoubleDataset(group,"earth_ye",ye_vec);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
   double radius = 6371.0;
-- 
2.43.0


From f331b778e588b63467f783c3b620981116b8c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 23/67] fix: EarthAtm::Track::MakeWithCosine keeps the geometry
 it was given

---
 src/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index 24b111d..6d50270 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -770,6 +770,8 @@ EarthAtm::Track::MakeWithCosine(double cosphi, double earth_radius_, double atmh
   Track track;
 
   track.cosphi = cosphi;
+  track.earth_radius = earth_radius_;
+  track.atmheight = atmheight_;
   double sinsqphi = 1-track.cosphi*track.cosphi;
 
   track.L = sqrt(SQR(earth_radius_+atmheight_)-earth_radius_*earth_radius_*sinsqphi)-earth_radius_*cosphi;
-- 
2.43.0


From f5be0a22b75081de31f3ac17f490e8319d82fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 24/67] fix: SunASnu built from tables uses the same solar
 radius as its tracks and its file constructor

---
 src/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 6d50270..ea3435a 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -579,7 +579,7 @@ SunASnu::SunASnu(std::vector<double> x,std::vector<double> rho,std::vector<doubl
 Body(),sun_radius(std::move(x)),sun_density(std::move(rho)),sun_xh(std::move(xh)),
 inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 {
-  radius = 695980.0*param.km;
+  radius = 694439.0*param.km;
   arraysize = sun_radius.size();
 }
 
-- 
2.43.0


From fcd67e02999646fc6a31d48e68982e514780b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 25/67] fix: SunASnu::Track stores and restores its impact
 parameter instead of misusing the end point

---
 src/body.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index ea3435a..1251d84 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -597,13 +597,17 @@ void SunASnu::Track::Serialize(hid_t group) const {
   addDoubleAttribute(group,"x",x);
   addDoubleAttribute(group,"xini",xini);
   addDoubleAttribute(group,"xend",xend);
+  addDoubleAttribute(group,"b_impact",b_impact);
 }
 
 std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
   double x_   =readDoubleAttribute(group,"x");
   double xini_=readDoubleAttribute(group,"xini");
   double xend_=readDoubleAttribute(group,"xend");
-  return std::make_shared<SunASnu::Track>(x_,xini_,xend_);
+  double b_impact_=readDoubleAttribute(group,"b_impact");
+  auto track=std::make_shared<SunASnu::Track>(x_,xini_,b_impact_);
+  track->xend=xend_;
+  return track;
 }
 
 void SunASnu::Serialize(hid_t group) const {
-- 
2.43.0


From 01e089f56a54350ab8860a31e68553122544de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 26/67] fix: EarthAtm::Track::Deserialize restores the initial
 and final position

---
 src/body.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 1251d84..e57e01e 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -720,8 +720,10 @@ void EarthAtm::Track::Serialize(hid_t group) const {
 }
 
 std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
-  double x, cosphi;
+  double x, xini, xend, cosphi;
   readH5Attribute(group,"x", x);
+  readH5Attribute(group,"xini", xini);
+  readH5Attribute(group,"xend", xend);
   readH5Attribute(group,"cosphi",cosphi);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
@@ -733,6 +735,8 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
     readH5Attribute(group,"atmheight", atmheight);
   auto track=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(cosphi,earth_radius,atmheight));
   track->SetX(x);
+  track->xini=xini;
+  track->xend=xend;
   return track;
 }
 
-- 
2.43.0


From 3bcdcc294a5d160c82472aab08c15524e6c71fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 27/67] fix: state files release the track, body and user
 parameter groups when a callback throws

---
 src/nuSQuIDS.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 948f037..efbbc59 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1811,13 +1811,11 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   H5LTmake_dataset(group,"aneustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(aneustate.data()));
 
   // writing body and track information
-  hid_t track_group_id = H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  track->Serialize(track_group_id);
-  H5Gclose(track_group_id);
+  H5Handle track_group(H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create track group");
+  track->Serialize(track_group);
 
-  hid_t body_group_id = H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  body->Serialize(body_group_id);
-  H5Gclose(body_group_id);
+  H5Handle body_group(H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create body group");
+  body->Serialize(body_group);
 
   // writing cross section information
   H5Handle xs_group;
@@ -2267,11 +2265,12 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters;
+  if(h5ObjectExists(group, "user_parameters"))
+    user_parameters = H5Handle(H5Gopen(group, "user_parameters", H5P_DEFAULT),H5Gclose,"open user parameters group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
   istate = true;
@@ -2699,11 +2698,12 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters;
+  if(h5ObjectExists(group, "user_parameters"))
+    user_parameters = H5Handle(H5Gopen(group, "user_parameters", H5P_DEFAULT),H5Gclose,"open user parameters group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
   istate = true;
-- 
2.43.0


From a5dfe17a4c9305e86b83a6f553137ce1fdffb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 28/67] fix: atmospheric state files are released on every
 exit, their failures reported, and existing files can be added to

---
 include/nuSQuIDS/nuSQuIDS.h | 67 +++++++++++++------------------------
 1 file changed, 23 insertions(+), 44 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3e39927..4c7c851 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1514,25 +1514,22 @@ class nuSQUIDSAtm {
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
 
-      hid_t file_id,root_id;
-      hid_t dset_id;
-      // create HDF5 file
-      if(overwrite)
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
-      else
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT, H5P_DEFAULT);
-      if (file_id < 0)
+      {
+        // create HDF5 file, or add to an existing one
+        H5File file(overwrite ?
+                    H5Fcreate(filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT) :
+                    H5Fopen(filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT));
+        if (file < 0)
           throw std::runtime_error("nuSQUIDS::Error::Cannot create file at " + filename + ".");
-      root_id = H5Gopen(file_id, "/",H5P_DEFAULT);
-
-      // write the zenith range
-      hsize_t costhdims[1]={costh_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data());
-      hsize_t energydims[1]={enu_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data());
-
-      H5Gclose (root_id);
-      H5Fclose (file_id);
+        H5Handle root(H5Gopen(file, "/",H5P_DEFAULT), H5Gclose, "open HDF5 group");
+
+        // write the zenith range
+        hsize_t costhdims[1]={costh_array.extent(0)};
+        hsize_t energydims[1]={enu_array.extent(0)};
+        if(H5LTmake_dataset(root,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data())<0
+           or H5LTmake_dataset(root,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data())<0)
+          throw std::runtime_error("nuSQUIDSAtm::WriteStateHDF5: Cannot write the zenith and energy nodes to " + filename + ".");
+      }
 
       unsigned int i = 0;
       for(const BaseSQUIDS& nsq : nusq_array){
@@ -1548,40 +1545,22 @@ class nuSQUIDSAtm {
     /// \details All contents are assumed to be saved to the \c root of the HDF5 file.
     /// @see WriteStateHDF5
     void ReadStateHDF5(std::string hdf5_filename){
-      hid_t file_id,group_id,root_id;
       // open HDF5 file
       H5File file(H5Fopen(hdf5_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT));
       if (file < 0)
         throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to open file: " + hdf5_filename + ". No such file or directory");
-      root_id = H5Gopen(file, "/",H5P_DEFAULT);
-      group_id = root_id;
-
-      // read the zenith range dimension
-      hsize_t costhdims[1];
-      H5LTget_dataset_info(group_id, "zenith_angles", costhdims, nullptr, nullptr);
-
-      double data[costhdims[0]];
-      H5LTread_dataset_double(group_id, "zenith_angles", data);
-      costh_array.resize(std::vector<size_t> {static_cast<unsigned long>(costhdims[0])});
-      for (unsigned int i = 0; i < costhdims[0]; i ++)
-        costh_array[i] = data[i];
-
-      hsize_t energydims[1];
-      H5LTget_dataset_info(group_id, "energy_range", energydims, nullptr, nullptr);
-
-      double enu_data[energydims[0]];
-      H5LTread_dataset_double(group_id, "energy_range", enu_data);
-      enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});log_enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});
-      for (unsigned int i = 0; i < energydims[0]; i ++){
-        enu_array[i] = enu_data[i];
-        log_enu_array[i] = log(enu_data[i]);
+      {
+        H5Handle root(H5Gopen(file, "/",H5P_DEFAULT), H5Gclose, "open HDF5 group");
+        readArrayH5(root, "zenith_angles", costh_array);
+        readArrayH5(root, "energy_range", enu_array);
       }
-
-      H5Gclose(root_id);
+      log_enu_array.resize(std::vector<size_t>{enu_array.size()});
+      for (unsigned int i = 0; i < enu_array.size(); i ++)
+        log_enu_array[i] = log(enu_array[i]);
 
       // resize apropiately the nuSQUIDSAtm container vector
       nusq_array.clear();
-      nusq_array = std::vector<BaseSQUIDS>(costhdims[0]);
+      nusq_array = std::vector<BaseSQUIDS>(costh_array.size());
 
       unsigned int i = 0;
       for(BaseSQUIDS& nsq : nusq_array){
-- 
2.43.0


From 4fb479692355bea4ce46db33eec7211e070be399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 29/67] fix: keep the constant density flag of a body when it
 is saved and restored

---
 src/body.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index e57e01e..1c164cc 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -105,6 +105,13 @@ unsigned int readUIntAttribute(hid_t object, std::string name){
   return target;
 }
 
+//this flag was originally not stored; without it a body has the default value
+bool readConstantDensityFlag(hid_t group){
+  if(H5Aexists(group,"is_constant_density")>0)
+    return readUIntAttribute(group,"is_constant_density")!=0;
+  return false;
+}
+
 void addDoubleDataset(hid_t group, const char* name, const std::vector<double>& data){
   hsize_t dim=data.size();
   if(H5LTmake_dataset_double(group, name, 1, &dim, data.data())<0)
@@ -246,6 +253,7 @@ void VariableDensity::Serialize(hid_t group) const {
   addDoubleDataset(group, "x_arr", x_arr);
   addDoubleDataset(group, "density_arr", density_arr);
   addDoubleDataset(group, "ye_arr", ye_arr);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
 }
 
 std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
@@ -254,7 +262,9 @@ std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
   readDoubleDataset(group,"x_arr",x_vec);
   readDoubleDataset(group,"density_arr",rho_vec);
   readDoubleDataset(group,"ye_arr",ye_vec);
-  return std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
+  auto body=std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
+  body->is_constant_density = readConstantDensityFlag(group);
+  return body;
 }
 
 // track constructor
@@ -357,6 +367,7 @@ void Earth::Serialize(hid_t group) const {
   addDoubleDataset(group, "earth_radius", earth_radius);
   addDoubleDataset(group, "earth_density", earth_density);
   addDoubleDataset(group, "earth_ye", earth_ye);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
 }
 
 std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
@@ -365,7 +376,9 @@ std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
   readDoubleDataset(group,"earth_radius",x_vec);
   readDoubleDataset(group,"earth_density",rho_vec);
   readDoubleDataset(group,"earth_ye",ye_vec);
-  return std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
+  auto body=std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
+  body->is_constant_density = readConstantDensityFlag(group);
+  return body;
 }
 
 double Earth::density(const GenericTrack& track_input) const
@@ -485,6 +498,7 @@ void Sun::Serialize(hid_t group) const {
   addDoubleDataset(group, "sun_radius", sun_radius);
   addDoubleDataset(group, "sun_density", sun_density);
   addDoubleDataset(group, "sun_xh", sun_xh);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
 }
 std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
@@ -492,7 +506,9 @@ std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   readDoubleDataset(group,"sun_radius",x_vec);
   readDoubleDataset(group,"sun_density",rho_vec);
   readDoubleDataset(group,"sun_xh",xh_vec);
-  return std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
+  auto body=std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
+  body->is_constant_density = readConstantDensityFlag(group);
+  return body;
 }
 
 double Sun::rdensity(double x) const{
@@ -616,6 +632,7 @@ void SunASnu::Serialize(hid_t group) const {
   addDoubleDataset(group, "sun_radius", sun_radius);
   addDoubleDataset(group, "sun_density", sun_density);
   addDoubleDataset(group, "sun_xh", sun_xh);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
 }
 
 std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
@@ -624,7 +641,9 @@ std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
   readDoubleDataset(group,"sun_radius",x_vec);
   readDoubleDataset(group,"sun_density",rho_vec);
   readDoubleDataset(group,"sun_xh",xh_vec);
-  return std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
+  auto body=std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
+  body->is_constant_density = readConstantDensityFlag(group);
+  return body;
 }
 
 void SunASnu::Track::FillDerivedParams(std::vector<double>& TrackParams) const{
@@ -748,6 +767,7 @@ void EarthAtm::Serialize(hid_t group) const {
   addDoubleDataset(group, "earth_ye", earth_ye);
   addH5Attribute(group,"radius",radius);
   addH5Attribute(group,"atm_height",atm_height);
+  addUIntAttribute(group,"is_constant_density",is_constant_density);
 }
 
 std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
@@ -767,6 +787,7 @@ std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
   auto earthAtm = std::make_shared<EarthAtm>(x_vec,rho_vec,ye_vec);
   earthAtm->radius = radius;
   earthAtm->SetAtmosphereHeight(atm_height);
+  earthAtm->is_constant_density = readConstantDensityFlag(group);
   return earthAtm;
 }
 
-- 
2.43.0


From c2cc4aacca33e9d526f9b68eab1b92110733612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 30/67] fix: EarthAtm clamps its profile at the surface too
 when the table ends below it

---
 src/body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 1c164cc..987fda9 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -838,7 +838,7 @@ double EarthAtm::density(const GenericTrack& track_input) const
   if ( rel_r < x_radius_min ){
     return x_rho_min;
   }
-  else if ( rel_r > x_radius_max and r < radius) {
+  else if ( rel_r > x_radius_max and r <= radius) {
     return x_rho_max;
   }
   else if ( r > radius) {
@@ -864,7 +864,7 @@ double EarthAtm::ye(const GenericTrack& track_input) const
   if ( rel_r < x_radius_min ){
     return x_ye_min;
   }
-  else if ( rel_r > x_radius_max and r < radius) {
+  else if ( rel_r > x_radius_max and r <= radius) {
     return x_ye_max;
   }
   else if ( r > radius ){
-- 
2.43.0


From 45cc9148e521e65175a712b8c5fa4343999ca351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 31/67] fix: SunASnu profile is a number where the path meets
 the centre and rounding makes the squared radius negative

---
 src/body.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 987fda9..ba53be2 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -678,7 +678,8 @@ double SunASnu::density(const GenericTrack& track_input) const
   double x = track_sunasnu.GetX();
   double b = track_sunasnu.b_impact;
 
-  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
+  double r2 = SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b));
+  double r = (r2>0 ? sqrt(r2) : 0)/radius;
 
   return rdensity(r);
 }
@@ -688,7 +689,8 @@ double SunASnu::ye(const GenericTrack& track_input) const
   const SunASnu::Track& track_sunasnu = static_cast<const SunASnu::Track&>(track_input);
   double x = track_sunasnu.GetX();
   double b = track_sunasnu.b_impact;
-  double r = sqrt(SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b)))/radius;
+  double r2 = SQR(radius)+SQR(x)-2.0*x*sqrt(SQR(radius)-SQR(b));
+  double r = (r2>0 ? sqrt(r2) : 0)/radius;
   return 0.5*(1.0+rxh(r));
 }
 
-- 
2.43.0


From ceda0c61d1f3b85c3b01a87c60955d74845b584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 32/67] fix: V1 total cross section at the highest tabulated
 energy read past the end of its table

---
 src/xsections.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 0c3ed7c..b18146e 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -626,8 +626,9 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE = log(Enu);
   double dlogE = logE_data_range[1]-logE_data_range[0];
   size_t idx = static_cast<size_t>((logE-logE_data_range[0])/dlogE);
-  if(idx==div)
-    idx--;
+  // the highest tabulated energy belongs to the last interval
+  if(idx+1>=div)
+    idx=div-2;
   const marray<double,3>& sigma=(current==CC ? s_CC_data : s_NC_data);
   return(LinInter(logE,logE_data_range[idx],logE_data_range[idx+1],sigma[neutype][flavor][idx],sigma[neutype][flavor][idx+1]));
 }
-- 
2.43.0


From e0f2dd0a5e2aca74a0670d198e16de267271b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 33/67] fix: V1 differential cross section converted positions
 outside its table to indices and could read past its end

---
 src/xsections.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index b18146e..5355ffa 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -652,12 +652,22 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE2 = log(E2);
   double dlogE = logE_data_range[1]-logE_data_range[0];
 
-  size_t loge_M1 = static_cast<size_t>((logE1-logE_data_range[0])/dlogE);
-  size_t loge_M2 = static_cast<size_t>((logE2-logE_data_range[0])/dlogE);
+  double pos_M1 = (logE1-logE_data_range[0])/dlogE;
+  double pos_M2 = (logE2-logE_data_range[0])/dlogE;
 
-  if ((loge_M2 > div-1) or (loge_M1 > div-1) or (E2 >= E1))
+  // nothing is tabulated this far below the table, and there is no index for it
+  if (not (pos_M2 > -1) or (E2 >= E1))
     return 0.0;
 
+  size_t loge_M1 = static_cast<size_t>(pos_M1);
+  size_t loge_M2 = static_cast<size_t>(pos_M2);
+
+  if ((loge_M2 > div-1) or (loge_M1 > div-1))
+    return 0.0;
+  // the highest tabulated energy belongs to the last interval
+  if (loge_M2 == div-1)
+    loge_M2--;
+
   //std::cout << E1 << " " << E2 << " " << loge_M1 << " " << loge_M2 << " " << div << std::endl;
   double phiMM,phiMP,phiPM,phiPP;
   if (current == CC){
-- 
2.43.0


From 0ad8f63b78e007bd7646a4c75c126439c4d7b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 34/67] fix: NeutrinoDISCrossSectionsFromTables::WriteHDF
 stored the electron tables in place of the muon ones

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 5355ffa..5cd9e0c 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -568,7 +568,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		writeFlavorHDF5(nueGrp, getFlavor(electron), compressionLevel);
 	}
 	
-	if(true || flavorsSame(electron,muon))
+	if(flavorsSame(electron,muon))
 		makeAlias("electron","muon");
 	else{
 		H5Handle numuGrp(H5Gcreate(h5file, "muon", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group for nu_mu cross sections");
-- 
2.43.0


From 3899ccb9894912014f41601d3fefadf15bb43ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 35/67] fix: cross-section files whose numbers of energies and
 z differ could be written as HDF5 but never read

---
 include/nuSQuIDS/xsections.h | 4 ++--
 src/xsections.cpp            | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/xsections.h b/include/nuSQuIDS/xsections.h
index 7bf58f6..babfa6d 100755
--- a/include/nuSQuIDS/xsections.h
+++ b/include/nuSQuIDS/xsections.h
@@ -492,9 +492,9 @@ public:
     /// whose values are the base-ten logarithms of the differential cross 
     /// section with respect to y, in square centimeters, for the indicated 
     /// current and impinging particle type. The dimensions of these datasets 
-    /// are energy and 'z', corresponding to the values in the energies and zs
+    /// are 'z' and energy, corresponding to the values in the zs and energies
     /// datasets. Since 'z' is not well-defined for the lowest incoming neutrino 
-    /// energy in the tables, E_in = E_min, the row corresponding to this energy 
+    /// energy in the tables, E_in = E_min, the column corresponding to this energy 
     /// should contain a small value (but not negative infinity), which will 
     /// never be used directly. -50, corresponding to a cross section of 1e-50 
     /// cm^2 can be a good choice in practice. 
diff --git a/src/xsections.cpp b/src/xsections.cpp
index 5cd9e0c..700c0ea 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -398,10 +398,11 @@ NeutrinoDISCrossSectionsFromTables::readFlavorHDF5(hid_t sourceLoc,
 	marray<double,2> buffer2;
 	auto readDifferential=[&](BiCubicInterpolator& dest, const std::string& tableName){
 		readArrayH5(sourceLoc, tableName, buffer2); //reallocates the target array 
-		if(buffer2.extent(0)!=energies.extent(0))
-			throw std::runtime_error(tableName+" does not have the same first dimension as energies");
-		if(buffer2.extent(1)!=zs.extent(0))
-			throw std::runtime_error(tableName+"'s second dimension does not have the same size as zs");
+		//the interpolator, and so WriteHDF, has the ordinate (z) as the first dimension
+		if(buffer2.extent(0)!=zs.extent(0))
+			throw std::runtime_error(tableName+" does not have the same first dimension as zs");
+		if(buffer2.extent(1)!=energies.extent(0))
+			throw std::runtime_error(tableName+"'s second dimension does not have the same size as energies");
 		dest=BiCubicInterpolator(std::move(buffer2),energies,zs);
 	};
 	readDifferential(data->dsdy_CC_nu,"dsdy_CC_nu");
-- 
2.43.0


From 8273aecd648e4d7c01beaba971c328cc13ba542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 36/67] fix: NeutrinoDISCrossSectionsFromTables::WriteText
 wrote the differential cross sections transposed

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 700c0ea..0cd50db 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -355,7 +355,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		for(std::size_t i=0, iMax=x.extent(0); i!=iMax; i++){
 			double en=pow(10.,x[i])/GeV;
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
-				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[i][j]) << '\n';
+				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
 	};
 	NeutrinoFlavor flavor;
-- 
2.43.0


From 5873d3dcc640859181ef9a15286f58b6d76debc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 37/67] fix: text cross-section tables were written with too
 few digits to be read back, and silently not written when a file could not be
 opened

---
 src/xsections.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 0cd50db..cfd60df 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -339,6 +339,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		std::ofstream outfile(path);
 		if(!outfile)
 			throw std::runtime_error("Unable to open "+path+" for writing");
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		//this makes a copy, which is unfortunate, but not a disaster for the 1D data
 		auto ab=data.getAbscissas();
 		auto ord=data.getOrdinates();
@@ -349,6 +350,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		std::ofstream outfile(path);
 		if(!outfile)
 			throw std::runtime_error("Unable to open "+path+" for writing");
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		const auto& x=data.getXCoords();
 		const auto& y=data.getYCoords();
 		const auto& z=data.getData();
@@ -826,6 +828,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeTotal=[](const std::string& path, const marray<double,3>& data,
                      const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    if(!out)
+      throw std::runtime_error("Unable to open "+path+" for writing");
+    out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie=0; ie<logEnergies.size(); ie++){
       out << exp(logEnergies[ie]) << ' ';
       for(size_t fl : {0,1,2}){
@@ -841,6 +846,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeDifferential=[](const std::string& path, const marray<double,4>& data,
                             const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    if(!out)
+      throw std::runtime_error("Unable to open "+path+" for writing");
+    out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie1=0; ie1<logEnergies.size(); ie1++){
       double e1=exp(logEnergies[ie1]);
       for(size_t ie2=0; ie2<logEnergies.size(); ie2++){
-- 
2.43.0


From b3106b5611c6c9c859bc47ec391a2b449c2ebd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 38/67] fix: V1 text cross-section tables were indexed without
 checking their shapes

---
 src/xsections.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index cfd60df..78d0789 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -732,11 +732,18 @@ void NeutrinoDISCrossSectionsFromTables_V1::ReadText(std::string root){
           // check table shapes and get the number of energy nodes
           unsigned int data_e_size = 0;
           if( sigma_CC_raw_data.extent(0) == sigma_NC_raw_data.extent(0) and
-              sigma_NC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
+              sigma_CC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
             data_e_size = sigma_CC_raw_data.extent(0);
           else
             throw std::runtime_error("nuSQUIDS::xsections::init: Data tables not the same size.");
 
+          if( data_e_size < 2 or sigma_CC_raw_data.extent(1) != 7 )
+            throw std::runtime_error("nuSQUIDS::xsections::init: Total cross section tables must have seven columns and at least two energies.");
+          for(const marray<double,2>* table : {&dsde_CC_raw_data,&dsde_NC_raw_data}){
+            if( table->extent(0) != static_cast<size_t>(data_e_size)*data_e_size or table->extent(1) != 8 )
+              throw std::runtime_error("nuSQUIDS::xsections::init: Differential cross section tables must have eight columns and one row for each pair of energies.");
+          }
+
           // getting the raw data energy node values
           logE_data_range.resize(data_e_size);
           for( int ie = 0; ie < data_e_size; ie ++)
-- 
2.43.0


From 69f82eb7e80eb84e8023ed3e1fc9d6cca05e4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 39/67] fix: V1 HDF5 cross-section tables were indexed without
 checking their shapes

---
 src/xsections.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 78d0789..d643453 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -793,16 +793,18 @@ NeutrinoDISCrossSectionsFromTables_V1::NeutrinoDISCrossSectionsFromTables_V1(std
       readArrayH5(h5file, "dsDE_CC", dsde_CC_data);
       readArrayH5(h5file, "dsDE_NC", dsde_NC_data);
     }
-    //TODO: make sanity checking more user friendly
-    assert(dsde_CC_data.extent(2)==dsde_CC_data.extent(3));
-    assert(dsde_NC_data.extent(2)==dsde_NC_data.extent(3));
-    assert(dsde_CC_data.extent(2)==dsde_NC_data.extent(2));
-    assert(dsde_CC_data.extent(0)==2);
-    assert(dsde_NC_data.extent(0)==2);
-    assert(dsde_CC_data.extent(1)==3);
-    assert(dsde_NC_data.extent(1)==3);
-    
     div=dsde_CC_data.extent(2);
+    if(div<2)
+      throw std::runtime_error(path+" does not contain at least two energies");
+    for(const marray<double,3>* table : {&s_CC_data,&s_NC_data}){
+      if(table->extent(0)!=2 || table->extent(1)!=3 || table->extent(2)!=div)
+        throw std::runtime_error(path+" contains a total cross section table with the wrong dimensions");
+    }
+    for(const marray<double,4>* table : {&dsde_CC_data,&dsde_NC_data}){
+      if(table->extent(0)!=2 || table->extent(1)!=3 || table->extent(2)!=div || table->extent(3)!=div)
+        throw std::runtime_error(path+" contains a differential cross section table with the wrong dimensions");
+    }
+    
     unsigned int data_e_size=div;
     auto raw_logE_data_range=logspace(Emin/GeV,Emax/GeV,div);
     logE_data_range.resize(data_e_size);
-- 
2.43.0


From e02cbf3e21a0692993979dc6d5b7e0f250528d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 40/67] fix: average cross sections over an empty range were
 not a number

---
 src/xsections.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index d643453..5a06ca8 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -94,6 +94,8 @@ namespace{
 namespace nusquids{
 
 double NeutrinoCrossSections::AverageTotalCrossSection(double EMin, double EMax, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const{
+	if(EMin==EMax)
+		return TotalCrossSection(EMin,flavor,neutype,current);
 	auto integrand=[=](double e_in)->double{
 		return this->TotalCrossSection(e_in,flavor,neutype,current);
 	};
@@ -101,6 +103,8 @@ double NeutrinoCrossSections::AverageTotalCrossSection(double EMin, double EMax,
 }
 	
 double NeutrinoCrossSections::AverageSingleDifferentialCrossSection(double E1, double E2Min, double E2Max, NeutrinoFlavor flavor, NeutrinoType neutype, Current current) const{
+	if(E2Min==E2Max)
+		return SingleDifferentialCrossSection(E1,E2Max,flavor,neutype,current);
 	auto integrand=[=](double e_out)->double{
 		return this->SingleDifferentialCrossSection(E1,e_out,flavor,neutype,current);
 	};
-- 
2.43.0


From 11f5a8603ddf0775099b17f6b97f010e26e5fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 41/67] fix: refuse to write tables over different energy grids
 into one HDF5 cross-section file

---
 src/xsections.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 5a06ca8..f92b484 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -22,6 +22,7 @@
  ******************************************************************************/
 
 #include <nuSQuIDS/xsections.h>
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 
@@ -546,6 +547,24 @@ void NeutrinoDISCrossSectionsFromTables::writeFlavorHDF5(hid_t destLoc, const pe
 }
 
 void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsigned int compressionLevel) const{
+	//the file stores only one set of energies and zs, so they must hold for all tables
+	auto sameCoords=[](const marray<double,1>& a, const marray<double,1>& b)->bool{
+		return a.extent(0)==b.extent(0) && std::equal(a.begin(),a.end(),b.begin());
+	};
+	const perFlavorData& refData=getFlavor(electron);
+	for(NeutrinoFlavor flavor : {electron,muon,tau}){
+		const perFlavorData& data=getFlavor(flavor);
+		for(const AkimaSpline* table : {&data.s_CC_nu,&data.s_NC_nu,&data.s_CC_nubar,&data.s_NC_nubar}){
+			if(!sameCoords(table->getAbscissas(),refData.dsdy_CC_nu.getXCoords()))
+				throw std::runtime_error("Cross sections tabulated for different energies cannot be written to one HDF5 file");
+		}
+		for(const BiCubicInterpolator* table : {&data.dsdy_CC_nu,&data.dsdy_NC_nu,&data.dsdy_CC_nubar,&data.dsdy_NC_nubar}){
+			if(!sameCoords(table->getXCoords(),refData.dsdy_CC_nu.getXCoords()) ||
+			   !sameCoords(table->getYCoords(),refData.dsdy_CC_nu.getYCoords()))
+				throw std::runtime_error("Cross sections tabulated for different energies or zs cannot be written to one HDF5 file");
+		}
+	}
+	
 	H5File h5file(H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
 	
 	{
-- 
2.43.0


From a53c3a7c98cae579a90e1c728a2c4b7d9d52fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 42/67] fix: check the energy range of every flavour's first
 cross-section text table

---
 src/xsections.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index f92b484..8bbc3e1 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -284,6 +284,8 @@ NeutrinoDISCrossSectionsFromTables::readFlavorText(const std::string& prefix,
 		Emax=eMaxTmp;
 		erangeSrc=prefix+"nu_sigma_CC.dat";
 	}
+	else if(eMinTmp!=Emin || eMaxTmp!=Emax)
+		throw std::runtime_error(prefix+"nu_sigma_CC.dat has different energy domain than "+erangeSrc);
 	std::tie(data->s_NC_nu,eMinTmp,eMaxTmp)=read1DInterpolationFromText(prefix+"nu_sigma_NC.dat");
 	if(eMinTmp!=Emin || eMaxTmp!=Emax)
 		throw std::runtime_error(prefix+"nu_sigma_NC.dat has different energy domain than "+erangeSrc);
-- 
2.43.0


From ebb84495ede7dd8a58dd1481b3355a763e496873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 43/67] fix: copy, move and compare the target list of an
 InteractionStructure

---
 include/nuSQuIDS/nuSQuIDS.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 4c7c851..0dd229c 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -208,6 +208,7 @@ protected:
         {}
         /// \brief Assignment operator
         InteractionStructure& operator=(const InteractionStructure& other){
+          targets=other.targets;
           dNdE_CC=other.dNdE_CC;
           dNdE_NC=other.dNdE_NC;
           dNdE_GR=other.dNdE_GR;
@@ -220,6 +221,7 @@ protected:
         }
         /// \brief Move assignment operator
         InteractionStructure& operator=(InteractionStructure&& other){
+          targets=std::move(other.targets);
           dNdE_CC=std::move(other.dNdE_CC);
           dNdE_NC=std::move(other.dNdE_NC);
           dNdE_GR=std::move(other.dNdE_GR);
@@ -232,6 +234,9 @@ protected:
         }
         /// \brief Equality operator
         bool operator==(const InteractionStructure& other) const{
+          if ( targets != other.targets )
+            return false;
+
           if (
                dNdE_CC.size() != other.dNdE_CC.size() or
                dNdE_NC.size() != other.dNdE_NC.size() or
@@ -278,6 +283,7 @@ protected:
         }
         /// \brief Copy constructor operator
         InteractionStructure(InteractionStructure& other):
+          targets(other.targets),
           dNdE_CC(other.dNdE_CC),dNdE_NC(other.dNdE_NC),dNdE_GR(other.dNdE_GR),
           sigma_CC(other.sigma_CC),sigma_NC(other.sigma_NC),sigma_GR(other.sigma_GR),
           dNdE_tau_all(other.dNdE_tau_all),
@@ -285,6 +291,7 @@ protected:
         {}
         /// \brief Move constructor operator
         InteractionStructure(InteractionStructure&& other):
+          targets(std::move(other.targets)),
           dNdE_CC(std::move(other.dNdE_CC)),dNdE_NC(std::move(other.dNdE_NC)),dNdE_GR(std::move(other.dNdE_GR)),
           sigma_CC(std::move(other.sigma_CC)),sigma_NC(std::move(other.sigma_NC)),sigma_GR(std::move(other.sigma_GR)),
           dNdE_tau_all(std::move(other.dNdE_tau_all)),
-- 
2.43.0


From 7fd4c2041e1874b021a3639f6d03967c3f5f3688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 44/67] fix: nuSQUIDS move operations carry over every member

---
 src/nuSQuIDS.cpp | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index efbbc59..353ab1a 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2921,23 +2921,40 @@ H0_array(std::move(other.H0_array)),
 HI_constants(other.HI_constants),
 current_density(other.current_density),
 current_ye(other.current_ye),
+current_external_flux(std::move(other.current_external_flux)),
 b0_proj(std::move(other.b0_proj)),
 b1_proj(std::move(other.b1_proj)),
 evol_b0_proj(std::move(other.evol_b0_proj)),
 evol_b1_proj(std::move(other.evol_b1_proj)),
+interaction_cache(std::move(other.interaction_cache)),
+interaction_cache_store(std::move(other.interaction_cache_store)),
+interaction_cache_store_size(other.interaction_cache_store_size),
+nc_factors(std::move(other.nc_factors)),
+tau_hadlep_decays(std::move(other.tau_hadlep_decays)),
+tau_lep_decays(std::move(other.tau_lep_decays)),
+gr_factors(std::move(other.gr_factors)),
+use_full_hamiltonian_for_projector_evolution(other.use_full_hamiltonian_for_projector_evolution),
+debug(other.debug),
 inusquids(other.inusquids),
 ibody(other.ibody),
 ienergy(other.ienergy),
 itrack(other.itrack),
 istate(other.istate),
 iinteraction(other.iinteraction),
+interactions_initialized(other.interactions_initialized),
 ioscillations(other.ioscillations),
 tauregeneration(other.tauregeneration),
 iglashow(other.iglashow),
 positivization(other.positivization),
+allowConstantDensityOscillationOnlyEvolution(other.allowConstantDensityOscillationOnlyEvolution),
 progressbar(other.progressbar),
 progressbar_count(other.progressbar_count),
-progressbar_loop(other.progressbar_loop)
+progressbar_loop(other.progressbar_loop),
+time_offset(other.time_offset),
+gsl_int_precision(other.gsl_int_precision),
+evol_lowpass_cutoff(other.evol_lowpass_cutoff),
+evol_lowpass_scale(other.evol_lowpass_scale),
+enable_neutrino_sources(other.enable_neutrino_sources)
 {
   other.inusquids=false; //other is no longer usable, since we stole its contents
 }
@@ -2965,10 +2982,20 @@ nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
   HI_constants = other.HI_constants;
   current_density = other.current_density;
   current_ye = other.current_ye;
+  current_external_flux = std::move(other.current_external_flux);
   b0_proj = std::move(other.b0_proj);
   b1_proj = std::move(other.b1_proj);
   evol_b0_proj = std::move(other.evol_b0_proj);
   evol_b1_proj = std::move(other.evol_b1_proj);
+  interaction_cache = std::move(other.interaction_cache);
+  interaction_cache_store = std::move(other.interaction_cache_store);
+  interaction_cache_store_size = other.interaction_cache_store_size;
+  nc_factors = std::move(other.nc_factors);
+  tau_hadlep_decays = std::move(other.tau_hadlep_decays);
+  tau_lep_decays = std::move(other.tau_lep_decays);
+  gr_factors = std::move(other.gr_factors);
+  use_full_hamiltonian_for_projector_evolution = other.use_full_hamiltonian_for_projector_evolution;
+  debug = other.debug;
 
   inusquids = other.inusquids;
   ibody = other.ibody;
@@ -2976,13 +3003,20 @@ nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
   itrack = other.itrack;
   istate = other.istate;
   iinteraction = other.iinteraction;
+  interactions_initialized = other.interactions_initialized;
   ioscillations = other.ioscillations;
   tauregeneration = other.tauregeneration;
   iglashow = other.iglashow;
   positivization = other.positivization;
+  allowConstantDensityOscillationOnlyEvolution = other.allowConstantDensityOscillationOnlyEvolution;
   progressbar = other.progressbar;
   progressbar_count = other.progressbar_count;
   progressbar_loop = other.progressbar_loop;
+  time_offset = other.time_offset;
+  gsl_int_precision = other.gsl_int_precision;
+  evol_lowpass_cutoff = other.evol_lowpass_cutoff;
+  evol_lowpass_scale = other.evol_lowpass_scale;
+  enable_neutrino_sources = other.enable_neutrino_sources;
 
   NT = other.NT;
 
-- 
2.43.0


From 7e99d4326f1884ceecec99b665d73c691768605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:34 +0000
Subject: [PATCH 45/67] fix: nuSQUIDSAtm owns its random generator and hands it
 over when moved

---
 include/nuSQuIDS/nuSQuIDS.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 0dd229c..f1efcbc 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1079,7 +1079,7 @@ class nuSQUIDSAtm {
     using BaseSQUIDS = BaseType;
   private:
     /// \brief Random number generator
-    gsl_rng * r_gsl;
+    std::unique_ptr<gsl_rng,void (*)(gsl_rng*)> r_gsl{nullptr,gsl_rng_free};
     // /// \brief Mixing matrix
     // std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex *)> U{nullptr,[](gsl_matrix_complex*m){delete m;}};
     /// \brief Internal units
@@ -1136,7 +1136,7 @@ class nuSQUIDSAtm {
     {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc(T_gsl));
 
       earth_atm = std::make_shared<EarthAtm>();
       for(double costh : costh_array)
@@ -1167,13 +1167,14 @@ class nuSQUIDSAtm {
     nuSQUIDSAtm(std::string hdf5_filename) {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc(T_gsl));
       ReadStateHDF5(hdf5_filename);
       //U = nusq_array[0].GetTransformationMatrix();
     }
 
     /// \brief Move constructor.
     nuSQUIDSAtm(nuSQUIDSAtm&& other):
+    r_gsl(std::move(other.r_gsl)),
     progressbar(other.progressbar),
     iinistate(other.iinistate),
     inusquidsatm(other.inusquidsatm),
@@ -1196,6 +1197,7 @@ class nuSQUIDSAtm {
       if(&other==this)
         return(*this);
 
+      r_gsl = std::move(other.r_gsl);
       progressbar = other.progressbar;
       iinistate = other.iinistate;
       inusquidsatm = other.inusquidsatm;
@@ -1379,7 +1381,7 @@ class nuSQUIDSAtm {
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       if (randomize_production_height){
-        double production_height = gsl_ran_flat(r_gsl,-15*units.km,15*units.km);
+        double production_height = gsl_ran_flat(r_gsl.get(),-15*units.km,15*units.km);
         delta_t_final += production_height;
       }
       
-- 
2.43.0


From 389d381f4afbef0d4cdc5f4289a6e0cb2e8ebd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 46/67] fix: nuSQUIDSAtm starts without a state and with one
 evaluation thread

---
 include/nuSQuIDS/nuSQuIDS.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index f1efcbc..b5a224f 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1093,9 +1093,9 @@ class nuSQUIDSAtm {
       return f1*yM + f2*yP;
     }
     /// \brief Boolean that signals that an initial state has being set.
-    bool iinistate;
+    bool iinistate = false;
     /// \brief Boolean that signals the object correct initialization.
-    bool inusquidsatm;
+    bool inusquidsatm = false;
     /// \brief Contains the cos(zenith) nodes.
     marray<double,1> costh_array;
     /// \brief Contains the energy nodes [eV].
@@ -1114,7 +1114,7 @@ class nuSQUIDSAtm {
     /// \brief Contains the interaction information structure.
     std::shared_ptr<typename BaseSQUIDS::InteractionStructure> int_struct;
     /// \brief the number of threads to use when performing the evolution
-    unsigned int evalThreads;
+    unsigned int evalThreads = 1;
   public:
     /************************************************************************************
      * CONSTRUCTORS
-- 
2.43.0


From 18df6c23fbd15b85ac8bae1e7acf836a9657386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:43 +0000
Subject: [PATCH 47/67] fix: mixing parameter indices equal to the number of
 flavors are out of range

---
 src/nuSQuIDS.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 353ab1a..cd1651d 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2842,40 +2842,40 @@ std::shared_ptr<Body> nuSQUIDS::GetBody(){
 }
 
 void nuSQUIDS::Set_MixingAngle( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   params.SetMixingAngle(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_MixingAngle( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   return params.GetMixingAngle(i,j);
 }
 
 void nuSQUIDS::Set_CPPhase( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   params.SetPhase(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_CPPhase( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   return params.GetPhase(i,j);
 }
 
 void nuSQUIDS::Set_SquareMassDifference( unsigned int i, double val){
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   params.SetEnergyDifference(i,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_SquareMassDifference( unsigned int i ) const {
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   return params.GetEnergyDifference(i);
 }
-- 
2.43.0


From 7e140e0efd5952a204b5668c13858e322a23686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:46 +0000
Subject: [PATCH 48/67] fix: evaluations and accessors reject flavor, node and
 particle type indices out of range

---
 include/nuSQuIDS/nuSQuIDS.h |  6 ++++++
 src/nuSQuIDS.cpp            | 36 ++++++++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index b5a224f..cd7ee95 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -896,14 +896,20 @@ protected:
     squids::SU_vector GetHamiltonian(unsigned int ei, unsigned int rho = 0);
     /// \brief Returns the state
     const squids::SU_vector& GetState(unsigned int ei,unsigned int rho = 0) const{
+      if(ei >= ne || rho >= nrhos)
+        throw std::runtime_error("nuSQUIDS::Error::Energy node or particle type index out of range.");
       return state[ei].rho[rho];
     }
     /// \brief Returns the flavor projector
     const squids::SU_vector& GetFlavorProj(unsigned int flv,unsigned int rho = 0) const{
+      if(flv >= numneu || rho >= nrhos)
+        throw std::runtime_error("nuSQUIDS::Error::Flavor or particle type index out of range.");
       return b1_proj[rho][flv];
     }
     /// \brief Returns the mass projector
     const squids::SU_vector& GetMassProj(unsigned int flv,unsigned int rho = 0) const{
+      if(flv >= numneu)
+        throw std::runtime_error("nuSQUIDS::Error::Flavor index out of range.");
       return b0_proj[flv];
     }
 
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index cd1651d..ec1e777 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1456,11 +1456,15 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( basis == mass )
-    return b0_proj[flv]*GetIntermediateState(rho,EE);
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Particle type index greater than number of initialized particle types.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+  if ( basis == mass )
+    return b0_proj[flv]*GetIntermediateState(rho,EE);
   return GetExpectationValueD(b0_proj[flv], rho, EE);
 }
 
@@ -1469,6 +1473,10 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Particle type index greater than number of initialized particle types.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1482,6 +1490,10 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double s
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Particle type index greater than number of initialized particle types.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1497,6 +1509,10 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Particle type index greater than number of initialized particle types.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1512,6 +1528,12 @@ double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Particle type index greater than number of initialized particle types.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of initialized energy nodes.");
   if(basis == mass)
     return b0_proj[flv]*state[ei].rho[rho];
   return GetExpectationValue(b0_proj[flv], rho, ei);
@@ -1522,6 +1544,12 @@ double nuSQUIDS::EvalFlavorAtNode(unsigned int flv, unsigned int ei, unsigned in
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   if ( rho != 0 and NT != both )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Particle type index greater than number of initialized particle types.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of initialized energy nodes.");
   if(basis == mass)
     return b1_proj[rho][flv]*state[ei].rho[rho];
   return GetExpectationValue(b1_proj[rho][flv], rho, ei);
@@ -1681,6 +1709,10 @@ void nuSQUIDS::SetIniFlavorProyectors(){
 squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of initialized energy nodes.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Particle type index greater than number of initialized particle types.");
   PreDerive(Get_t());
   return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
 }
-- 
2.43.0


From 1cae6740e7d316f6415d7953cb7b6a8b400fb06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:12 +0000
Subject: [PATCH 49/67] fix: multi-energy setup marks the object initialized
 and reading a state always sizes it for the file

---
 src/nuSQuIDS.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index ec1e777..c62c2b9 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -254,6 +254,7 @@ void nuSQUIDS::init(marray<double,1> E_vector, double xini){
   //===============================
   // END                         //
   //===============================
+  inusquids = true;
 }
 
 void nuSQUIDS::InitializeInteractionVectors(unsigned int nTargets){
@@ -2207,9 +2208,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  if (ne == 1 and NT != both and not iinteraction){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
@@ -2417,9 +2417,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  if (ne == 1 and NT != both and not iinteraction){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
-- 
2.43.0


From f7333a6e6691383468e19f151b472e3cbbfe7a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 50/67] fix: without oscillations, external sources are added
 once whatever the number of particle types

---
 src/nuSQuIDS.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index c62c2b9..0169efd 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -840,6 +840,7 @@ void nuSQUIDS::UpdateInteractions(){
                                     <squids::detail::EqualSizes | squids::detail::AlignedStorage>
                                     (factors_nu_tau[e1]*projector_tau);
       }
+    }
 
     if(enable_neutrino_sources){
       for(unsigned int rho = 0; rho < nrhos; rho++){
@@ -853,8 +854,6 @@ void nuSQUIDS::UpdateInteractions(){
       }
     }
 
-    }
-
   } //end of no oscillation handling
   else{ //oscillations
     NUSQUIDS_DEBUG_LABEL(NC_contribution_osc);
-- 
2.43.0


From 997c500df9389749f374bd819973a61ee67e1ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 51/67] fix: neutral current potential keeps its sign and
 strength in matter without electrons

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 0169efd..cdb6782 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -337,7 +337,7 @@ squids::SU_vector nuSQUIDS::HI(unsigned int ie, unsigned int irho) const{
     double NC;
 
     if (current_ye < 1.0e-10)
-      NC = HI_constants*current_density;
+      NC = -0.5*HI_constants*current_density*(1.0-current_ye);
     else
       NC = CC*(-0.5*(1.0-current_ye)/current_ye);
     // antineutrino matter potential flips sign
-- 
2.43.0


From 1bbd9c13e1c3f761bc98e83c8d7eb12bfc00976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:13 +0000
Subject: [PATCH 52/67] fix: Hamiltonian in the mass basis counts the vacuum
 term once

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index cdb6782..be712fe 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1714,6 +1714,8 @@ squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if ( rho >= nrhos )
     throw std::runtime_error("nuSQUIDS::Error::Particle type index greater than number of initialized particle types.");
   PreDerive(Get_t());
+  if (basis == mass) // HI already includes the vacuum term
+    return HI(ei,rho,Get_t());
   return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
 }
 
-- 
2.43.0


From ca882728b9261c58ef62130062d435bdf35236c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 53/67] fix: switching oscillations on or off updates the
 vacuum Hamiltonian

---
 src/nuSQuIDS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index be712fe..2c30a2c 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2859,6 +2859,9 @@ void nuSQUIDS::Set_EvolLowPassScale(double val){
 }
 void nuSQUIDS::Set_IncludeOscillations(bool opt){
   ioscillations = opt;
+  // the vacuum Hamiltonian depends on this
+  if(inusquids)
+    iniH0();
 }
 
 void nuSQUIDS::Set_AllowConstantDensityOscillationOnlyEvolution(bool opt){
-- 
2.43.0


From 955ceb00f29992f2e3849d0a277b374b2bcef22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 54/67] fix: new cross sections replace the interaction tables
 made from the previous ones

---
 include/nuSQuIDS/nuSQuIDS.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index cd7ee95..36a28fd 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1053,6 +1053,8 @@ protected:
     /// \brief Returns the neutrino interaction cross sections
     void SetNeutrinoCrossSections(std::shared_ptr<CrossSectionLibrary> xs) {
        ncs=xs;
+       // tables made from the previous cross sections no longer apply
+       int_struct.reset();
        interactions_initialized=false;
     }
 
-- 
2.43.0


From 4b589d5ccd0b26cb91f65557571d3ac7ac5f167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 55/67] fix: tau regeneration and the Glashow resonance can be
 switched on after interactions were initialized

---
 src/nuSQuIDS.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 2c30a2c..987f1f5 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2837,12 +2837,19 @@ void nuSQUIDS::Set_TauRegeneration(bool opt){
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs has been initialized without interactions, thus tau regeneration cannot be enabled.");
   if( numneu < 3 and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs at least three neutrino flavors must be included to enable tau regeneration.");
+  if(opt and not tauregeneration)
+    interactions_initialized = false; // its buffers are needed
   tauregeneration = opt;
 }
   
 void nuSQUIDS::Set_GlashowResonance(bool opt){
   if( not iinteraction and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs has been initialized without interactions, thus the Glashow resonance cannot be enabled.");
+  if(opt and not iglashow){
+    // its tables and buffers are needed
+    int_struct.reset();
+    interactions_initialized = false;
+  }
   iglashow = opt;
 }
 
-- 
2.43.0


From cef32059b04b7f8f207dbe3d0934ab3ffaf3c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 56/67] fix: repeated evolution along time reversed tracks
 keeps the direction of the integration step

---
 src/nuSQuIDS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 987f1f5..d9d7c28 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1250,8 +1250,9 @@ void nuSQUIDS::EvolveState(){
   if( !ioscillations && iinteraction)
     SetUpInteractionCache();
 
-  // is track time reversed
-  if(track->GetFinalX() < track->GetInitialX()){
+  // the integration step has to follow the direction of the track, which may be time reversed
+  const double track_length = track->GetFinalX() - track->GetInitialX();
+  if((track_length < 0) != (Get_h() < 0)){
     // flip the arrow of time
     Set_h((-1.0)*Get_h());
   }
-- 
2.43.0


From 6c7bc23c58eaceb439dfc507aa45cee6cbeb4649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 57/67] fix: evolution with the positivity constraint covers
 the track wherever it starts and whatever its direction

---
 src/nuSQuIDS.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index d9d7c28..72acc8b 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1291,12 +1291,13 @@ void nuSQUIDS::EvolveState(){
   }
 
   if(positivization){
-    int positivization_steps = static_cast<int>((track->GetFinalX() - track->GetInitialX())/positivization_scale);
+    const double positivization_length = (track_length < 0) ? -positivization_scale : positivization_scale;
+    int positivization_steps = static_cast<int>(track_length/positivization_length);
     for (int i = 0; i < positivization_steps; i++){
-      Evolve(positivization_scale);
+      Evolve(positivization_length);
       PositivizeFlavors();
     }
-    Evolve(track->GetFinalX()-positivization_scale*positivization_steps);
+    Evolve(track_length-positivization_length*positivization_steps);
     PositivizeFlavors();
   } else {
     Evolve(track->GetFinalX()-track->GetInitialX());
-- 
2.43.0


From 18dab7ed7c698cbb1df3c34be3dfed81c0f5a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:26 +0000
Subject: [PATCH 58/67] fix: single energy objects have a positivity constraint
 step

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 72acc8b..a02036a 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -130,6 +130,8 @@ void nuSQUIDS::init(double xini){
 
   iniH0();
 
+  positivization_scale = 300.0*params.km;
+
   //precompute this product for HI to avoid repeating expensive pow() calls.
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
-- 
2.43.0


From 9967f867a91c8426e8997d55cb440708a56dbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:37 +0000
Subject: [PATCH 59/67] fix: a constant density evolution no longer disables
 the evolutions after it, nor misreads a state already evolved

---
 src/nuSQuIDS.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index a02036a..2d4a006 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1259,7 +1259,9 @@ void nuSQUIDS::EvolveState(){
     Set_h((-1.0)*Get_h());
   }
 
-  if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
+  // a state already evolved in the interaction basis cannot be reinterpreted in the mass basis
+  const bool mass_basis_allowed = (basis == mass) or (Get_t() == Get_t_initial());
+  if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution and mass_basis_allowed ){
     // when only oscillations are considered and the density is constant
     // we can ju st rotate the system to the propagation eigenstates
     use_full_hamiltonian_for_projector_evolution = true;
@@ -1292,6 +1294,12 @@ void nuSQUIDS::EvolveState(){
     return;
   }
 
+  if(use_full_hamiltonian_for_projector_evolution){
+    // undo what a previous constant density evolution turned off
+    use_full_hamiltonian_for_projector_evolution = false;
+    Set_AnyNumerics(true);
+  }
+
   if(positivization){
     const double positivization_length = (track_length < 0) ? -positivization_scale : positivization_scale;
     int positivization_steps = static_cast<int>(track_length/positivization_length);
-- 
2.43.0


From 42bace8a0b074ac267986676513f8a2d3b8fd4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:09 +0000
Subject: [PATCH 60/67] fix: nuSQUIDSAtm lost the exceptions of nodes evolved
 in threads

---
 include/nuSQuIDS/nuSQuIDS.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 36a28fd..0fd4c56 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1335,6 +1335,9 @@ class nuSQUIDSAtm {
             std::cout << "cos(th) = " + std::to_string(costh_array[i++]) << " complete" << std::endl;
         }
         Set_ProgressBar(overrideProgressBar);
+        // report any failure to the caller
+        for(auto& task : tasks)
+          task.get();
       }
     }
 
-- 
2.43.0


From 6defbb0e0341c7c4621dc4656ee5c5bcbc65969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:11 +0000
Subject: [PATCH 61/67] fix: nuSQUIDSAtm single node settings accepted any node
 index

---
 include/nuSQuIDS/nuSQuIDS.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 0fd4c56..36ce0d4 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1681,7 +1681,7 @@ class nuSQUIDSAtm {
     /// \param h initial step size
     /// \param idx energy node index
     void Set_h(double h, unsigned int idx){
-      nusq_array[idx].Set_h(h);
+      GetnuSQuIDS(idx).Set_h(h);
     }
   
     /// \brief Set the maximum integration step size
@@ -1695,7 +1695,7 @@ class nuSQUIDSAtm {
     /// \param h maximum step size
     /// \param idx energy node index
     void Set_h_max(double h, unsigned int idx){
-      nusq_array[idx].Set_h_max(h);
+      GetnuSQuIDS(idx).Set_h_max(h);
     }
   
     /// \brief Set the minimum integration step size
@@ -1709,7 +1709,7 @@ class nuSQUIDSAtm {
     /// \param h minimum step size
     /// \param idx energy node index
     void Set_h_min(double h, unsigned int idx){
-      nusq_array[idx].Set_h_min(h);
+      GetnuSQuIDS(idx).Set_h_min(h);
     }
 
     /// \brief Set the allowed absolute numerical error
@@ -1723,7 +1723,7 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_abs_error(double eps, unsigned int idx){
-      nusq_array[idx].Set_abs_error(eps);
+      GetnuSQuIDS(idx).Set_abs_error(eps);
     }
 
     /// \brief Set the allowed relative numerical error
@@ -1737,7 +1737,7 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_rel_error(double eps, unsigned int idx){
-      nusq_array[idx].Set_rel_error(eps);
+      GetnuSQuIDS(idx).Set_rel_error(eps);
     }
 
     /// \brief Sets the GSL solver
-- 
2.43.0


From 50d02916d7218f618809256eeb7f374ce333bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:12 +0000
Subject: [PATCH 62/67] fix: nuSQUIDSAtm kept the trajectories of the previous
 Earth model

---
 include/nuSQuIDS/nuSQuIDS.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 36ce0d4..3974122 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1892,8 +1892,13 @@ class nuSQUIDSAtm {
     /// @param earth Shared pointer to Earth object.
     void Set_EarthModel(std::shared_ptr<EarthAtm> earth){
       earth_atm=earth;
-      for(BaseSQUIDS& nsq : nusq_array){
-        nsq.Set_Body(earth);
+      // the trajectories depend on the size of the Earth and of its atmosphere
+      track_array.clear();
+      for(double costh : costh_array)
+        track_array.push_back(std::make_shared<EarthAtm::Track>(earth_atm->MakeTrackWithCosine(costh)));
+      for(size_t i = 0; i < nusq_array.size(); i++){
+        nusq_array[i].Set_Body(earth);
+        nusq_array[i].Set_Track(track_array[i]);
       }
     }
   
-- 
2.43.0


From 652bcb3078bb5f1e291fdf590a24564ba9b14cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:14 +0000
Subject: [PATCH 63/67] fix: nuSQUIDSAtm averaged evaluation accepted averaging
 vectors of any size

---
 include/nuSQuIDS/nuSQuIDS.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3974122..a15acb9 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1450,6 +1450,8 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
       if(not ( rho == 0 or rho == 1))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if(avr.size() != GetNumNeu())
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor average vector bool size must be the number of neutrinos.");
       
       if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
-- 
2.43.0


From b9ed92d27365a139b44832d90cd525229a649d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 64/67] fix: nuSQUIDSAtm with a single zenith or energy node
 read beyond its nodes when evaluated

---
 include/nuSQuIDS/nuSQuIDS.h | 38 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index a15acb9..de6fc69 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1373,6 +1373,8 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      // with a single zenith node there is nothing to interpolate
+      size_t cth_P=(cth_M+1<costh_array.size()) ? cth_M+1 : cth_M;
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1388,6 +1390,7 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=(loge_M+1<enu_array.size()) ? loge_M+1 : loge_M;
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
@@ -1398,9 +1401,9 @@ class nuSQUIDSAtm {
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1417,19 +1420,21 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=(loge_P==loge_M) ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
       double f1=1-f2;
 
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return phiM;
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Returns the flavor composition at a given energy and zenith.
@@ -1468,6 +1473,8 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      // with a single zenith node there is nothing to interpolate
+      size_t cth_P=(cth_M+1<costh_array.size()) ? cth_M+1 : cth_M;
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1483,15 +1490,16 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=(loge_M+1<enu_array.size()) ? loge_M+1 : loge_M;
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1510,20 +1518,22 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=(loge_P==loge_M) ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
       double f1=1-f2;
       
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
 
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return phiM;
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Writes the object into an HDF5 file.
-- 
2.43.0


From 5fbf0102d7503c926b8fc270c258900b523706b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:34 +0000
Subject: [PATCH 65/67] fix: nuSQUIDSAtm read beyond its nodes when constructed
 without any

---
 include/nuSQuIDS/nuSQuIDS.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index de6fc69..6e281ef 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1142,6 +1142,8 @@ class nuSQUIDSAtm {
     costh_array(costh_array),
     evalThreads(1)
     {
+      if(costh_array.size()==0)
+        throw std::runtime_error("nuSQUIDSAtm::Error::At least one zenith node is needed.");
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
       r_gsl.reset(gsl_rng_alloc(T_gsl));
-- 
2.43.0


From b1ba901082b7b90b7faedacbe1cf5b418eb09f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 66/67] fix: Set_Track dereferenced null trajectories

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 2d4a006..6a064a9 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1201,6 +1201,8 @@ void nuSQUIDS::Set_Body(std::shared_ptr<Body> body_in){
 }
 
 void nuSQUIDS::Set_Track(std::shared_ptr<Track> track_in){
+  if ( track_in == nullptr )
+    throw std::runtime_error("nuSQUIDS::Error::TRACK is a NULL pointer");
   // setting time offset
   time_offset = Get_t() - track_in->GetInitialX();
   // enforce track beginningness
-- 
2.43.0


From 8fce98d00092e1512dd0eeb35c823d960c5677da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:02 +0000
Subject: [PATCH 67/67] fix: interactions whose initialization failed were used
 half made at the next attempt

---
 src/nuSQuIDS.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 6a064a9..90ddeef 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1009,8 +1009,10 @@ void nuSQUIDS::InitializeInteractions(){
         int_struct->targets={isoscalar_nucleon};
         nTargets=1;
       }
-      else
+      else{
+        int_struct.reset(); // keep no unfinished data
         throw std::runtime_error("Cross section object does not provide any suitable nucleon cross sections");
+      }
     }
     
     // initialize cross section and interaction arrays
@@ -1018,6 +1020,7 @@ void nuSQUIDS::InitializeInteractions(){
       InitializeInteractionVectors(nTargets);
     } catch (std::exception& ex) {
       std::cerr << ex.what() << std::endl;
+      int_struct.reset();
       throw std::runtime_error("nuSQUIDS::init : Failed while trying to initialize interaction vectors [InitializeInteractionVectors]");
     }
     //===============================
@@ -1027,6 +1030,7 @@ void nuSQUIDS::InitializeInteractions(){
       GetCrossSections();
     } catch (std::exception& ex) {
       std::cerr << ex.what() << std::endl;
+      int_struct.reset();
       throw std::runtime_error("nuSQUIDS::init : Failed while trying to fill in interaction vectors [InitializeInteractions]");
     }
   }
-- 
2.43.0

