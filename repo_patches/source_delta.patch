From a8321944546b375fb8f3aa1dbe841a04c6816c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:55 +0000
Subject: [PATCH 01/13] fix: close exported files before reporting success

The xyz exporters never closed their output (f.closed instead of f.close()) and
no exporter closed it on an exception, so a write error on the final flush was
lost and 0 was returned, and a handle kept alive by a held exception could flush
stale text into the file of a later, retried export.
---
 src/pyqcstrc/dode2/occupation_domain.py | 71 +++++++++++-----------
 src/pyqcstrc/ico2/occupation_domain.py  | 79 +++++++++++++------------
 2 files changed, 78 insertions(+), 72 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index ca96e94..976c6c2 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -169,6 +169,14 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     else:
         pass
     
+    file_name='%s/%s.vesta'%(path,basename)
+    with open(file_name,'w') as f:
+        return write_vesta_file(f,file_name,obj,path,basename,color,select,verbose)
+
+def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
+    """
+    Write occupation domains in VESTA format to f, which write_vesta() opens and closes.
+    """
     def colors(code):
         if code=='red' or code=='r':
             a = [255,0,0]
@@ -192,9 +200,6 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             a = [127,127,127]
         return a
     
-    file_name='%s/%s.vesta'%(path,basename)
-    f=open('%s'%(file_name),'w')
-    
     #dmax=5.0
     dmax=10.0
     
@@ -435,7 +440,6 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n 255 255 255 255\
             \n 128.000',file = f)
         
-            f.close()
             if verbose>0:
                 print('    written in %s'%(file_name))
             return 0
@@ -629,7 +633,6 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \nHKLPM\
             \n 255 255 255 255\
             \n 128.000',file=f)
-            f.close()
             if verbose>0:
                 print('    written in %s'%(file_name))
             return 0
@@ -849,7 +852,6 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n 255 255 255 255\
             \n 128.000',file = f)
         
-            f.close()
             #write_vesta_separate(obj, path, basename, color, dmax)
             if verbose>0:
                 print('    written in %s'%(file_name))
@@ -877,7 +879,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         int: 0 (succeed), 1 (fail)
     """
     
-    def generator_xyz_dim4_triangle(obj,filename):
+    def generator_xyz_dim4_triangle(obj,filename,f):
         """
         Generate object (set of triangles) object in XYZ format.
     
@@ -885,12 +887,12 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
             obj (numpy.ndarray): the occupation domain
                 The shape is (num,3,6,3), where num=numbre_of_triangle.
             filename (str): filename of the output XYZ file
+            f (file): output XYZ file, opened and closed by the caller
         
         Returns:
             int: 0 (succeed), 1 (fail)
         
         """
-        f=open('%s'%(filename),'w', encoding="utf-8", errors="ignore")
         f.write('%d\n'%(len(obj)*3))
         f.write('%s\n'%(filename))
         i1=0
@@ -908,10 +910,9 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
                 vt[3][0],vt[3][1],vt[3][2],\
                 vt[4][0],vt[4][1],vt[4][2],\
                 vt[5][0],vt[5][1],vt[5][2]))
-        f.closed
         return 0
     
-    def generator_xyz_dim4_edge(obj,filename):
+    def generator_xyz_dim4_edge(obj,filename,f):
         """
         Generate object (set of edges) object in XYZ format.
     
@@ -919,12 +920,12 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
             obj (numpy.ndarray): the occupation domain
                 The shape is (num,2,6,3), where num=numbre_of_e.
             filename (str): filename of the output XYZ file
+            f (file): output XYZ file, opened and closed by the caller
         
         Returns:
             int: 0 (succeed), 1 (fail)
         
         """
-        f=open('%s'%(filename),'w', encoding="utf-8", errors="ignore")
         f.write('%d\n'%(len(obj)*2))
         f.write('%s\n'%(filename))
         for i1,edge in enumerate(obj):
@@ -941,10 +942,9 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
                 vt[3][0],vt[3][1],vt[3][2],\
                 vt[4][0],vt[4][1],vt[4][2],\
                 vt[5][0],vt[5][1],vt[5][2]))
-        f.closed
         return 0
     
-    def generator_xyz_dim4_vertex(obj, filename):
+    def generator_xyz_dim4_vertex(obj,filename,f):
         """
         Generate object (set of vertexs) object in XYZ format.
     
@@ -952,12 +952,12 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
             obj (numpy.ndarray): the occupation domain
                 The shape is (num,3,6,3), where num=numbre_of_tetrahedron.
             filename (str): filename of the output XYZ file
+            f (file): output XYZ file, opened and closed by the caller
         
         Returns:
             int: 0 (succeed), 1 (fail)
         
         """
-        f=open('%s'%(filename),'w', encoding="utf-8", errors="ignore")
         f.write('%d\n'%(len(obj)))
         f.write('%s\n'%(filename))
         for i1,point in enumerate(obj):
@@ -973,7 +973,6 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
             point[3][0],point[3][1],point[3][2],\
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
-        f.closed
         return 0
     
     if np.all(obj==None):
@@ -990,17 +989,20 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         #        print('    written in %s/%s.xyz'%(path,basename))
         #    return 0
         if select == 'triangle' or 't':
-            generator_xyz_dim4_triangle(obj, file_name)
+            with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
+                generator_xyz_dim4_triangle(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
         elif select == 'edge' or 'e':
-            generator_xyz_dim4_edge(obj, file_name)
+            with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
+                generator_xyz_dim4_edge(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
         elif select == 'vertex' or 'v':
-            generator_xyz_dim4_vertex(obj, file_name)
+            with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
+                generator_xyz_dim4_vertex(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
@@ -1181,18 +1183,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         else:
             return 
     
-    # common vertex
-    vrtx0=find_common_vertex(obj)
-    
-    if np.all(vrtx0!=None):
-        
-        if os.path.exists(path) == False:
-            os.makedirs(path)
-        else:
-            pass
-        fatm=open('%s/%s.atm'%(path,basename),'w', encoding="utf-8", errors="ignore")
-        fpod=open('%s/%s.pod'%(path,basename),'w', encoding="utf-8", errors="ignore")
-        
+    def write_atm_pod(fatm,fpod):
         #--------
         #  atm
         #--------
@@ -1231,6 +1222,19 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         
         return 0
     
+    # common vertex
+    vrtx0=find_common_vertex(obj)
+    
+    if np.all(vrtx0!=None):
+        
+        if os.path.exists(path) == False:
+            os.makedirs(path)
+        else:
+            pass
+        with open('%s/%s.atm'%(path,basename),'w', encoding="utf-8", errors="ignore") as fatm, \
+            open('%s/%s.pod'%(path,basename),'w', encoding="utf-8", errors="ignore") as fpod:
+            return write_atm_pod(fatm,fpod)
+    
     else:
         print('No common vertex found in the object. pod and atm cannot be created.')
         return 1
@@ -1254,8 +1258,7 @@ def simple_hand_step1(obj, path, basename_tmp):
             The shape is (num,3,6,3), where num=numbre_of_triangles.
     
     """
-    def write_xyz_smpl(a, path, basename):
-        f=open('%s'%(path)+'/%s.xyz'%(basename),'w', encoding="utf-8", errors="ignore")
+    def write_xyz_smpl(a, basename, f):
         f.write('%d\n'%(len(a)))
         f.write('%s\n'%(basename))
         for i1 in range(len(a)):
@@ -1271,11 +1274,11 @@ def simple_hand_step1(obj, path, basename_tmp):
             a[i1][3][0],a[i1][3][1],a[i1][3][2],\
             a[i1][4][0],a[i1][4][1],a[i1][4][2],\
             a[i1][5][0],a[i1][5][1],a[i1][5][2]))
-        f.closed
         return 0
         
     od1a=utils.remove_doubling_in_perp_space(obj)
-    write_xyz_smpl(od1a, path, basename_tmp)
+    with open('%s'%(path)+'/%s.xyz'%(basename_tmp),'w', encoding="utf-8", errors="ignore") as f:
+        write_xyz_smpl(od1a, basename_tmp, f)
     print('written in %s'%(path)+'/%s.xyz'%(basename_tmp))
     print('open above XYZ file in vesta and make merge_list, and run simple_hand_step2()')
     return od1a
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 6e3aec8..54f8ebd 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -159,6 +159,14 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     else:
         pass
     
+    file_name='%s/%s.vesta'%(path,basename)
+    with open(file_name,'w') as f:
+        return write_vesta_file(f,file_name,obj,path,basename,color,select,verbose)
+
+def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
+    """
+    Write occupation domains in VESTA format to f, which write_vesta() opens and closes.
+    """
     def colors(code):
         if code=='red' or code=='r':
             a = [255,0,0]
@@ -182,9 +190,6 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             a = [127,127,127]
         return a
     
-    file_name='%s/%s.vesta'%(path,basename)
-    f=open('%s'%(file_name),'w')
-    
     #dmax=5.0
     dmax=10.0
     
@@ -413,7 +418,6 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n 255 255 255 255\
             \n 128.000',file = f)
         
-            f.close()
             if verbose>0:
                 print('    written in %s'%(file_name))
             return 0
@@ -615,7 +619,6 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \nHKLPM\
             \n 255 255 255 255\
             \n 128.000',file = f)
-            f.close()
             if verbose>0:
                 print('    written in %s'%(file_name))
             return 0
@@ -836,7 +839,6 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n 255 255 255 255\
             \n 128.000',file = f)
         
-            f.close()
             #write_vesta_separate(obj, path, basename, color, dmax)
             if verbose>0:
                 print('    written in %s'%(file_name))
@@ -864,7 +866,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
         int: 0 (succeed), 1 (fail)
     """
     
-    def generator_xyz_dim4_tetrahedron(obj,filename):
+    def generator_xyz_dim4_tetrahedron(obj,filename,f):
         """
         Generate object (set of tetrahedra) object in XYZ format.
     
@@ -872,13 +874,13 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             obj (numpy.ndarray): the occupation domain
                 The shape is (num,4,6,3), where num=numbre_of_tetrahedron.
             filename (str): filename of the output XYZ file
+            f (file): output XYZ file, opened and closed by the caller
         
         Returns:
             int: 0 (succeed), 1 (fail)
     
         """
             
-        f=open('%s'%(filename),'w', encoding="utf-8", errors="ignore")
         f.write('%d\n'%(len(obj)*4))
         f.write('%s\n'%(filename))
         i1=0
@@ -903,10 +905,9 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             v=utils.tetrahedron_volume_6d(tetrahedron)
             f.write('%3d-the tetrahedron, %d %d %d (%8.6f)\n'\
                     %(i1,v[0],v[1],v[2],numericalc.numeric_value(v)))
-        f.close()
         return 0
     
-    def generator_xyz_dim4_triangle(obj,filename):
+    def generator_xyz_dim4_triangle(obj,filename,f):
         """
         Generate object (set of triangles) object in XYZ format.
     
@@ -914,12 +915,12 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             obj (numpy.ndarray): the occupation domain
                 The shape is (num,3,6,3), where num=numbre_of_triangle.
             filename (str): filename of the output XYZ file
+            f (file): output XYZ file, opened and closed by the caller
         
         Returns:
             int: 0 (succeed), 1 (fail)
         
         """
-        f=open('%s'%(filename),'w', encoding="utf-8", errors="ignore")
         f.write('%d\n'%(len(obj)*3))
         f.write('%s\n'%(filename))
         i1=0
@@ -938,10 +939,9 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
                 triangle[i2][4][0],triangle[i2][4][1],triangle[i2][4][2],\
                 triangle[i2][5][0],triangle[i2][5][1],triangle[i2][5][2]))
             i1+=1
-        f.closed
         return 0
     
-    def generator_xyz_dim4_edge(obj,filename):
+    def generator_xyz_dim4_edge(obj,filename,f):
         """
         Generate object (set of edges) object in XYZ format.
     
@@ -949,12 +949,12 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             obj (numpy.ndarray): the occupation domain
                 The shape is (num,2,6,3), where num=numbre_of_e.
             filename (str): filename of the output XYZ file
+            f (file): output XYZ file, opened and closed by the caller
         
         Returns:
             int: 0 (succeed), 1 (fail)
         
         """
-        f=open('%s'%(filename),'w', encoding="utf-8", errors="ignore")
         f.write('%d\n'%(len(obj)*2))
         f.write('%s\n'%(filename))
         i1=0
@@ -973,10 +973,9 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
                 edge[i2][4][0],edge[i2][4][1],edge[i2][4][2],\
                 edge[i2][5][0],edge[i2][5][1],edge[i2][5][2]))
             i1+=1
-        f.closed
         return 0
     
-    def generator_xyz_dim4_vertex(obj, filename):
+    def generator_xyz_dim4_vertex(obj,filename,f):
         """
         Generate object (set of vertexs) object in XYZ format.
     
@@ -984,12 +983,12 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             obj (numpy.ndarray): the occupation domain
                 The shape is (num,3,6,3), where num=numbre_of_tetrahedron.
             filename (str): filename of the output XYZ file
+            f (file): output XYZ file, opened and closed by the caller
         
         Returns:
             int: 0 (succeed), 1 (fail)
         
         """
-        f=open('%s'%(filename),'w', encoding="utf-8", errors="ignore")
         f.write('%d\n'%(len(obj)))
         f.write('%s\n'%(filename))
         i1=0
@@ -1007,7 +1006,6 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
             i1=0
-        f.closed
         return 0
     
     if np.all(obj==None):
@@ -1019,22 +1017,26 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
     else:
         file_name='%s/%s.xyz'%(path,basename)
         if select == 'tetrahedron':
-            generator_xyz_dim4_tetrahedron(obj, file_name)
+            with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
+                generator_xyz_dim4_tetrahedron(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
         elif select == 'triangle':
-            generator_xyz_dim4_triangle(obj, file_name)
+            with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
+                generator_xyz_dim4_triangle(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
         elif select == 'edge':
-            generator_xyz_dim4_edge(obj, file_name)
+            with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
+                generator_xyz_dim4_edge(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
         elif select == 'vertex':
-            generator_xyz_dim4_vertex(obj, file_name)
+            with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
+                generator_xyz_dim4_vertex(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
@@ -1201,18 +1203,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         else:
             return 
     
-    # common vertex
-    vrtx0=find_common_vertex(obj)
-    
-    if np.all(vrtx0!=None):
-        
-        if os.path.exists(path) == False:
-            os.makedirs(path)
-        else:
-            pass
-        fatm=open('%s/%s.atm'%(path,basename),'w', encoding="utf-8", errors="ignore")
-        fpod=open('%s/%s.pod'%(path,basename),'w', encoding="utf-8", errors="ignore")
-        
+    def write_atm_pod(fatm,fpod):
         #--------
         #  atm
         #--------
@@ -1251,6 +1242,19 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         
         return 0
     
+    # common vertex
+    vrtx0=find_common_vertex(obj)
+    
+    if np.all(vrtx0!=None):
+        
+        if os.path.exists(path) == False:
+            os.makedirs(path)
+        else:
+            pass
+        with open('%s/%s.atm'%(path,basename),'w', encoding="utf-8", errors="ignore") as fatm, \
+            open('%s/%s.pod'%(path,basename),'w', encoding="utf-8", errors="ignore") as fpod:
+            return write_atm_pod(fatm,fpod)
+    
     else:
         print('No common vertex found in the object. pod and atm cannot be created.')
         return 1
@@ -1274,8 +1278,7 @@ def simple_hand_step1(obj, path, basename_tmp):
             The shape is (num,4,6,3), where num=numbre_of_tetrahedron.
     
     """
-    def write_xyz_smpl(a, path, basename):
-        f=open('%s'%(path)+'/%s.xyz'%(basename),'w', encoding="utf-8", errors="ignore")
+    def write_xyz_smpl(a, basename, f):
         f.write('%d\n'%(len(a)))
         f.write('%s\n'%(basename))
         for i1 in range(len(a)):
@@ -1291,11 +1294,11 @@ def simple_hand_step1(obj, path, basename_tmp):
             a[i1][3][0],a[i1][3][1],a[i1][3][2],\
             a[i1][4][0],a[i1][4][1],a[i1][4][2],\
             a[i1][5][0],a[i1][5][1],a[i1][5][2]))
-        f.closed
         return 0
         
     od1a=utils.remove_doubling_in_perp_space(obj)
-    write_xyz_smpl(od1a, path, basename_tmp)
+    with open('%s'%(path)+'/%s.xyz'%(basename_tmp),'w', encoding="utf-8", errors="ignore") as f:
+        write_xyz_smpl(od1a, basename_tmp, f)
     print('written in %s'%(path)+'/%s.xyz'%(basename_tmp))
     print('open above XYZ file in vesta and make merge_list, and run simple_hand_step2()')
     return od1a
-- 
2.43.0


From 5c7be76d93eec502f100027e377c89df010aa4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:46 +0000
Subject: [PATCH 02/13] fix: write_podatm closes its files on every path and
 accepts arrays

obj==None is ambiguous for an array, no volume was reported as success, and
an exception left both files open.
---
 src/pyqcstrc/ico2/occupation_domain.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 54f8ebd..11a24cc 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1558,12 +1558,7 @@ def write_podatm(obj, position, vlist, path='.', basename='tmp', shift=[0.0,0.0,
     else:
         pass
     
-    if obj==None:
-        print('no volume obj')
-        return 0
-    else:
-        fatm=open('%s/%s.atm'%(path,basename),'w', encoding="utf-8", errors="ignore")
-        fpod=open('%s/%s.pod'%(path,basename),'w', encoding="utf-8", errors="ignore")
+    def write_atm_pod(fatm,fpod):
         
         v=obj
         
@@ -1590,7 +1585,6 @@ def write_podatm(obj, position, vlist, path='.', basename='tmp', shift=[0.0,0.0,
             numericalc.numeric_value(a[4])+shft[4],\
             numericalc.numeric_value(a[5])+shft[5]))
             fatm.write('isyd=1\n')
-        fatm.close()
     
         # .pod file
         fpod.write('nsymo=4 icent=1 brv=\'p\' io=%d\n'%(len(vlist)))
@@ -1637,7 +1631,14 @@ def write_podatm(obj, position, vlist, path='.', basename='tmp', shift=[0.0,0.0,
                 fpod.write(' %d'%(tmp1[i2]+1))
             fpod.write('\n100000000000000000000000000000000000000000000000000000000000\n')
             fpod.write('000000000000000000000000000000000000000000000000000000000000\n')
-        fpod.close()
+
+    if np.all(obj==None):
+        print('no volume obj')
+        return 1
+    else:
+        with open('%s/%s.atm'%(path,basename),'w', encoding="utf-8", errors="ignore") as fatm, \
+            open('%s/%s.pod'%(path,basename),'w', encoding="utf-8", errors="ignore") as fpod:
+            write_atm_pod(fatm,fpod)
         print('    written in %s/%s.atm'%(path,basename))
         print('    written in %s/%s.pod'%(path,basename))
     return 0
-- 
2.43.0


From f81b12914936702fa77a60c1324cce190b72f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:00 +0000
Subject: [PATCH 03/13] fix: read_xyz never takes a torn last line and fails
 with an error status

The last character of a line without its newline was dropped, so a truncated
file could be read as a different object; a missing file ended the program with
status 0; the file was left open and decoded with the locale encoding although
it is written as UTF-8 (write_vesta: written with the locale encoding).
---
 src/pyqcstrc/dode2/occupation_domain.py | 17 +++++++++--------
 src/pyqcstrc/ico2/occupation_domain.py  | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 976c6c2..4597cc0 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -170,7 +170,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         pass
     
     file_name='%s/%s.vesta'%(path,basename)
-    with open(file_name,'w') as f:
+    with open(file_name,'w', encoding="utf-8") as f:
         return write_vesta_file(f,file_name,obj,path,basename,color,select,verbose)
 
 def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
@@ -1032,16 +1032,17 @@ def read_xyz(path,basename,select='triangle',verbose=0):
     
     def read_file(file):
         try:
-            f=open(file,'r')
+            f=open(file,'r', encoding="utf-8")
         except IOError as e:
             print(e)
-            sys.exit(0)
+            sys.exit(1)
         line=[]
-        while 1:
-            a=f.readline()
-            if not a:
-                break
-            line.append(a[:-1])
+        with f:
+            while 1:
+                a=f.readline()
+                if not a.endswith('\n'): # end of file or torn last line
+                    break
+                line.append(a[:-1])
         return line
     
     filename='%s/%s.xyz'%(path,basename)
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 11a24cc..37a7edc 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -160,7 +160,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         pass
     
     file_name='%s/%s.vesta'%(path,basename)
-    with open(file_name,'w') as f:
+    with open(file_name,'w', encoding="utf-8") as f:
         return write_vesta_file(f,file_name,obj,path,basename,color,select,verbose)
 
 def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
@@ -1066,16 +1066,17 @@ def read_xyz(path,basename,select='tetrahedron',verbose=0):
     
     def read_file(file):
         try:
-            f=open(file,'r')
+            f=open(file,'r', encoding="utf-8")
         except IOError as e:
             print(e)
-            sys.exit(0)
+            sys.exit(1)
         line=[]
-        while 1:
-            a=f.readline()
-            if not a:
-                break
-            line.append(a[:-1])
+        with f:
+            while 1:
+                a=f.readline()
+                if not a.endswith('\n'): # end of file or torn last line
+                    break
+                line.append(a[:-1])
         return line
     
     filename='%s/%s.xyz'%(path,basename)
-- 
2.43.0


From 31e0014c90dbb1447406e9b6c657cafb89aea5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:15 +0000
Subject: [PATCH 04/13] fix: exporters tolerate the output directory appearing
 concurrently

---
 src/pyqcstrc/dode2/occupation_domain.py | 6 +++---
 src/pyqcstrc/ico2/occupation_domain.py  | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 4597cc0..acec417 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -118,7 +118,7 @@ def write(obj=None,path=None,basename=None,format=None,color='k',select=None,ver
     """
     
     if os.path.exists(path)==False:
-        os.makedirs(path)
+        os.makedirs(path,exist_ok=True)
     else:
         pass
     
@@ -165,7 +165,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     #print('write_vesta()')
     
     if os.path.exists(path)==False:
-        os.makedirs(path)
+        os.makedirs(path,exist_ok=True)
     else:
         pass
     
@@ -1229,7 +1229,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
     if np.all(vrtx0!=None):
         
         if os.path.exists(path) == False:
-            os.makedirs(path)
+            os.makedirs(path,exist_ok=True)
         else:
             pass
         with open('%s/%s.atm'%(path,basename),'w', encoding="utf-8", errors="ignore") as fatm, \
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 37a7edc..d043d5e 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -114,7 +114,7 @@ def write(obj, path='.',basename='tmp',format='xyz',color='k',verbose=0,select='
     """
     
     if os.path.exists(path)==False:
-        os.makedirs(path)
+        os.makedirs(path,exist_ok=True)
     else:
         pass
         
@@ -155,7 +155,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     """
     
     if os.path.exists(path)==False:
-        os.makedirs(path)
+        os.makedirs(path,exist_ok=True)
     else:
         pass
     
@@ -1249,7 +1249,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
     if np.all(vrtx0!=None):
         
         if os.path.exists(path) == False:
-            os.makedirs(path)
+            os.makedirs(path,exist_ok=True)
         else:
             pass
         with open('%s/%s.atm'%(path,basename),'w', encoding="utf-8", errors="ignore") as fatm, \
@@ -1555,7 +1555,7 @@ def write_podatm(obj, position, vlist, path='.', basename='tmp', shift=[0.0,0.0,
     """
     
     if os.path.exists(path) == False:
-        os.makedirs(path)
+        os.makedirs(path,exist_ok=True)
     else:
         pass
     
-- 
2.43.0


From f43a7037dce1de26a1daa152f76b108cb08d77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:28 +0000
Subject: [PATCH 05/13] fix: write() reports failure when nothing was exported

write() returned 0 (succeed) whatever write_xyz()/write_vesta() returned, for an
unknown format and for an empty domain; the writers returned None or 0 where
they document 1 (fail).
---
 src/pyqcstrc/dode2/occupation_domain.py | 20 +++++++++-----------
 src/pyqcstrc/ico2/occupation_domain.py  | 17 ++++++++---------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index acec417..70d4949 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -124,18 +124,16 @@ def write(obj=None,path=None,basename=None,format=None,color='k',select=None,ver
     
     if np.all(obj==None):
         print('    Empty OD')
-        return 0
+        return 1
     else:
         if format=='vesta':
             if select==None:
                 select='normal'
-            write_vesta(obj,path,basename,color,select,verbose)
-            return 0
+            return write_vesta(obj,path,basename,color,select,verbose)
         elif format == 'xyz':
             if select==None:
                 select='triangle'
-            write_xyz(obj,path,basename,select,verbose)
-            return 0
+            return write_xyz(obj,path,basename,select,verbose)
         else:
             return 1
 
@@ -206,7 +204,7 @@ def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
     if select=='simple' or select=='egdes':
         if np.all(obj==None):
             print('no volume obj')
-            return 0
+            return 1
         else:
             # get independent edges
             if select=='simple':
@@ -447,7 +445,7 @@ def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
     elif select=='normal':
         if np.all(obj==None):
             print('no volume obj')
-            return 0
+            return 1
         else:
             print('#VESTA_FORMAT_VERSION 3.5.0\n', file=f)
             for i1,obj1 in enumerate(obj):
@@ -640,7 +638,7 @@ def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
     elif select == 'podatm':
         if np.all(obj==None):
             print('no volume obj')
-            return 0
+            return 1
         else:
             # get independent edges
             edges = utils.generator_obj_edge(obj, verbose)
@@ -977,10 +975,10 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
     
     if np.all(obj==None):
         print('empty obj')
-        return 
+        return 1
     elif obj.ndim!=4:
         print('object has an incorrect shape!')
-        return 
+        return 1
     else:
         file_name='%s/%s.xyz'%(path,basename)
         #if select == 'tetrahedron':
@@ -1009,7 +1007,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         else:
             if verbose>0:
                 print('    error')
-            return 
+            return 1
 
 def read_xyz(path,basename,select='triangle',verbose=0):
     """
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index d043d5e..9afe438 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -123,12 +123,11 @@ def write(obj, path='.',basename='tmp',format='xyz',color='k',verbose=0,select='
         return 1
     else:
         if format=='vesta' or format=='v' or format=='VESTA':
-            write_vesta(obj, path, basename, color, select='normal', verbose=0)
+            return write_vesta(obj, path, basename, color, select='normal', verbose=0)
         elif format == 'xyz':
-            write_xyz(obj, path, basename, select, verbose)
+            return write_xyz(obj, path, basename, select, verbose)
         else:
-            pass
-        return 0
+            return 1
     
 def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0):
     """
@@ -197,7 +196,7 @@ def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
         
         if np.all(obj==None):
             print('no volume obj')
-            return 0
+            return 1
         
         else:
             # get independent edges
@@ -627,7 +626,7 @@ def write_vesta_file(f,file_name,obj,path,basename,color,select,verbose):
         
         if np.all(obj==None):
             print('no volume obj')
-            return 0
+            return 1
         else:
             # get independent edges
             edges = utils.generator_obj_edge(obj, verbose)
@@ -1010,10 +1009,10 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
     
     if np.all(obj==None):
         print('empty obj')
-        return 
+        return 1
     elif obj.ndim!=4:
         print('object has an incorrect shape!')
-        return 
+        return 1
     else:
         file_name='%s/%s.xyz'%(path,basename)
         if select == 'tetrahedron':
@@ -1043,7 +1042,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
         else:
             if verbose>0:
                 print('    error')
-            return 
+            return 1
 
 def read_xyz(path,basename,select='tetrahedron',verbose=0):
     """
-- 
2.43.0


From 6d9807ed7e40a240e9cd2598c8ea7f94e6f5ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:40 +0000
Subject: [PATCH 06/13] fix: write_xyz exports edges and vertices as read_xyz
 reads them back

dode2 wrote every object as triangles (select == 'triangle' or 't' is always
true), and both packages refused the (num,6,3) set of vertices that read_xyz
returns for select='vertex'.
---
 src/pyqcstrc/dode2/occupation_domain.py | 8 ++++----
 src/pyqcstrc/ico2/occupation_domain.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 70d4949..66e9348 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -976,7 +976,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
     if np.all(obj==None):
         print('empty obj')
         return 1
-    elif obj.ndim!=4:
+    elif obj.ndim!=4 and not (obj.ndim==3 and select in ['vertex','v']):
         print('object has an incorrect shape!')
         return 1
     else:
@@ -986,19 +986,19 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         #    if verbose>0:
         #        print('    written in %s/%s.xyz'%(path,basename))
         #    return 0
-        if select == 'triangle' or 't':
+        if select == 'triangle' or select == 't':
             with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
                 generator_xyz_dim4_triangle(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'edge' or 'e':
+        elif select == 'edge' or select == 'e':
             with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
                 generator_xyz_dim4_edge(obj, file_name, f)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'vertex' or 'v':
+        elif select == 'vertex' or select == 'v':
             with open(file_name,'w', encoding="utf-8", errors="ignore") as f:
                 generator_xyz_dim4_vertex(obj, file_name, f)
             if verbose>0:
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 9afe438..a8a00ed 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1010,7 +1010,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
     if np.all(obj==None):
         print('empty obj')
         return 1
-    elif obj.ndim!=4:
+    elif obj.ndim!=4 and not (obj.ndim==3 and select == 'vertex'):
         print('object has an incorrect shape!')
         return 1
     else:
-- 
2.43.0


From 997d6fe82f06169a2b30b17b86247a0bab13853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:55 +0000
Subject: [PATCH 07/13] fix: decomposition no longer swallows interrupts and
 memory errors

The bare except took KeyboardInterrupt and MemoryError for a degenerate set of
points, which silently dropped pieces of an intersection.
---
 src/pyqcstrc/dode2/utils.py | 4 ++--
 src/pyqcstrc/ico2/utils.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a1a99ea..665c7ce 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -27,7 +27,7 @@ from pyqcstrc.dode2.numericalc import (numeric_value,
 
 import numpy as np
 from numpy.typing import NDArray
-from scipy.spatial import Delaunay
+from scipy.spatial import Delaunay, QhullError
 import itertools
 import time
 
@@ -579,7 +579,7 @@ def sort_obj(obj: NDArray[np.int64]) -> NDArray[np.int64]:
 def decomposition(tmp2v: NDArray[np.float64]):
     try:
         tri=Delaunay(tmp2v)
-    except:
+    except (QhullError, ValueError):
         print('error in decomposition')
         return 
     else:
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b127b59..957b357 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -27,7 +27,7 @@ from pyqcstrc.ico2.numericalc import (numeric_value,
                                     )
 import numpy as np
 from numpy.typing import NDArray
-from scipy.spatial import Delaunay
+from scipy.spatial import Delaunay, QhullError
 import itertools
 import time
 
@@ -828,7 +828,7 @@ def sort_obj(obj: NDArray[np.int64]) -> NDArray[np.int64]:
 def decomposition(tmp2v: NDArray[np.int64]) -> NDArray[np.int64]:
     try:
         tri=Delaunay(tmp2v)
-    except:
+    except (QhullError, ValueError):
         print('error in decomposition')
         return 
     else:
-- 
2.43.0


From b725b48f1d201abfe13e68adf6102df36ab0f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:07 +0000
Subject: [PATCH 08/13] fix: coplanar_check_numeric no longer depends on the
 random draws

When all num_iteration random triples were collinear the points were reported
as not coplanar. Fall back to every triple.
---
 src/pyqcstrc/dode2/numericalc.py | 5 +++--
 src/pyqcstrc/ico2/numericalc.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index c0e5034..5e77609 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -5,6 +5,7 @@
 #
 import numpy as np
 from numpy.typing import NDArray
+import itertools
 import random
 
 TAU=np.sqrt(3)/2.0
@@ -48,8 +49,8 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     if num>3:
         flag=0
         lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
+        samples=(random.sample(lst0, 3) for _ in range(num_iteration))
+        for lst3 in itertools.chain(samples, itertools.combinations(lst0, 3)):
             #
             xyz1=pns[lst3[1]]-pns[lst3[0]]
             xyz2=pns[lst3[2]]-pns[lst3[0]]
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index 4387b5a..f765151 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -5,6 +5,7 @@
 #
 import numpy as np
 from numpy.typing import NDArray
+import itertools
 import random
 
 TAU=(1+np.sqrt(5))/2.0
@@ -48,8 +49,8 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     if num>3:
         flag=0
         lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
+        samples=(random.sample(lst0, 3) for _ in range(num_iteration))
+        for lst3 in itertools.chain(samples, itertools.combinations(lst0, 3)):
             #
             xyz1=pns[lst3[1]]-pns[lst3[0]]
             xyz2=pns[lst3[2]]-pns[lst3[0]]
-- 
2.43.0


From 4e2b9eafb52736f72bc60b6498c65c33edc76638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:21 +0000
Subject: [PATCH 09/13] fix: simple_hand_step1 writes its vertices instead of
 raising TypeError

---
 src/pyqcstrc/dode2/occupation_domain.py | 6 +++---
 src/pyqcstrc/ico2/occupation_domain.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 66e9348..0cfad02 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1263,9 +1263,9 @@ def simple_hand_step1(obj, path, basename_tmp):
         for i1 in range(len(a)):
             xyz=math1.projection3(a[i1])
             f.write('Xx %8.6f %8.6f %8.6f # %d-th vertex # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
-            (numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
+            (numericalc.numeric_value(xyz[0]),\
+            numericalc.numeric_value(xyz[1]),\
+            numericalc.numeric_value(xyz[2]),\
             i1,\
             a[i1][0][0],a[i1][0][1],a[i1][0][2],\
             a[i1][1][0],a[i1][1][1],a[i1][1][2],\
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index a8a00ed..96a45bb 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1284,9 +1284,9 @@ def simple_hand_step1(obj, path, basename_tmp):
         for i1 in range(len(a)):
             xyz=math1.projection3(a[i1])
             f.write('Xx %8.6f %8.6f %8.6f # %d-th vertex # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
-            (numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
+            (numericalc.numeric_value(xyz[0]),\
+            numericalc.numeric_value(xyz[1]),\
+            numericalc.numeric_value(xyz[2]),\
             i1,\
             a[i1][0][0],a[i1][0][1],a[i1][0][2],\
             a[i1][1][0],a[i1][1][1],a[i1][1][2],\
-- 
2.43.0


From 50c9bed891f9121579c936744b51f979338a067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:05 +0000
Subject: [PATCH 10/13] fix: write_vesta keeps the existing file when there is
 nothing to export

---
 src/pyqcstrc/dode2/occupation_domain.py | 4 ++++
 src/pyqcstrc/ico2/occupation_domain.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 0cfad02..d2bf1a9 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -167,6 +167,10 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     else:
         pass
     
+    if np.all(obj==None):
+        print('no volume obj')
+        return 1
+    
     file_name='%s/%s.vesta'%(path,basename)
     with open(file_name,'w', encoding="utf-8") as f:
         return write_vesta_file(f,file_name,obj,path,basename,color,select,verbose)
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 96a45bb..685594b 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -158,6 +158,10 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     else:
         pass
     
+    if np.all(obj==None):
+        print('no volume obj')
+        return 1
+    
     file_name='%s/%s.vesta'%(path,basename)
     with open(file_name,'w', encoding="utf-8") as f:
         return write_vesta_file(f,file_name,obj,path,basename,color,select,verbose)
-- 
2.43.0


From d928caab1f4460d80b36897e9aae4028651847af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:33 +0000
Subject: [PATCH 11/13] fix: intersection of two triangles whose edges do not
 cross

---
 src/pyqcstrc/dode2/intsct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index 552b302..f723659 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -383,7 +383,8 @@ def intersection_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArra
             else:
                 tmp=np.vstack([tmp,vtx]) # intersecting points
             counter+=1
-    tmp=tmp.reshape(int(len(tmp)/6),6,3)
+    if counter>0:
+        tmp=tmp.reshape(int(len(tmp)/6),6,3)
     
     # get vertces of triangle_1 that are inside triangle_2
     for vtx in triangle_1:
-- 
2.43.0


From 1315e2f3dbf2623a83d42aa465f9b0421c916ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:19 +0000
Subject: [PATCH 12/13] fix: simplification keeps domains that are not convex

---
 src/pyqcstrc/dode2/occupation_domain.py | 3 +--
 src/pyqcstrc/ico2/occupation_domain.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index d2bf1a9..949ded1 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1112,8 +1112,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_area_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_area_6d(obj_tmp)
+        vol1=utils.obj_area_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 685594b..d512af0 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1147,8 +1147,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_volume_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_volume_6d(obj_tmp)
+        vol1=utils.obj_volume_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
-- 
2.43.0


From 9e29d58593fb03467691343d6cfab13df0d24e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:20 +0000
Subject: [PATCH 13/13] fix: convex intersection of cells that only touch or
 have no vertex inside each other

intersection_two_obj_convex used point_a1/point_b1 even if no vertex was found inside the
other domain (UnboundLocalError), and tetrahedralization_points did not handle points that
cannot be tetrahedralized (TypeError).
---
 src/pyqcstrc/ico2/intsct.py | 6 +++++-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/ico2/intsct.py b/src/pyqcstrc/ico2/intsct.py
index 1ac3f3e..391855a 100755
--- a/src/pyqcstrc/ico2/intsct.py
+++ b/src/pyqcstrc/ico2/intsct.py
@@ -768,7 +768,11 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=tetrahedralization_points(points)
             if np.all(common==None):
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 957b357..8cefaad 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -852,7 +852,7 @@ def tetrahedralization_points(points: NDArray[np.int64]) -> NDArray[np.int64]:
         
     ltmp=decomposition(tmp)
     p=points
-    if ltmp!=[0]:
+    if ltmp is not None:
         counter=0
         for i in ltmp:
             tmp3=np.array([p[i[0]],p[i[1]],p[i[2]],p[i[3]]]).reshape(4,6,3)
-- 
2.43.0

