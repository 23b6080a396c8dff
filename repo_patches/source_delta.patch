From addf151521d1c7b91328235575b3b23d3daed6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 01/92] fix: evaluate production function at a0=0 when
 explicitly given

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 4156b54..e8f220b 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -80,7 +80,7 @@ class Productionfn:
         :param a0: a0
         :return: y-values
         '''
-        if not a0:
+        if a0 is None:
             a0 = self.a[0] if hasattr(self,'a') else 0.
         if presentation=='cumulative':
             return self.C(d,a0)
-- 
2.43.0


From 59e45d8c1d30121811dd93c7b0d1e23fab734168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 02/92] fix: keep crater fractions when reading spatial .scc
 file

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 138f648..d950186 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -62,7 +62,7 @@ class Spatialcount:
 
         crater=c['crater']
         diam=[float(e) for e in crater['diam']]
-        frac=[float(e) for e in crater['fraction']] if 'fraction' in c else [1. for e in diam]
+        frac=[float(e) for e in crater['fraction']] if 'fraction' in crater else [1. for e in diam]
         lon=[float(e) for e in crater['lon']]
         lat = [float(e) for e in crater['lat']]
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
-- 
2.43.0


From d93ad2f206ad6e7b689e991b50284154539edc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 03/92] fix: NameError when -o specifies a directory

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6feb4fc..c67c3b5 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -432,7 +432,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(v + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + gm.filename(default_filename,'n'))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From 561bb254ac168e71435243c0cf4e5c7c6843a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 04/92] fix: NameError when user functions file is unreadable

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 31e45be..b979028 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -75,7 +75,7 @@ class Functionslist:
                 try:
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
                 except:
-                    print("Unable to read user functions file: "+functions_user+" - ignoring.")
+                    print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
     def user_function_config(self):
-- 
2.43.0


From 6eb13e24bd38a8d3161e96ef3fedee2cfb69699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 05/92] fix: treat punctuation in abbreviations literally

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index c67c3b5..f428283 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -146,7 +146,7 @@ def decode_abbreviation(s,v,one_based=False,allow_ambiguous=False,allow_invalid=
 
     #perhaps add back index selection requiring # prefix?
 
-    regex = '(?i)' + '.*'.join(v)
+    regex = '(?i)' + '.*'.join(map(re.escape, v))
     res = [(i,e) for i,e in enumerate(s) if re.search(regex, e) is not None]
     res.sort(key=lambda x: len(x[1]))
     if len(res) == 0:
-- 
2.43.0


From 8053c6441b471068ded72b846ad0036d8d8cd5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 06/92] fix: IndexError for empty string argument

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index f428283..b2aa8cb 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -532,7 +532,7 @@ def main(args0=None):
     cpl = [cst.Craterplot(d) for d in cp_dicts]
     cps.craterplot=cpl
 
-    cs_content = ''.join(['\n'+e if e[0]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
+    cs_content = ''.join(['\n'+e if e[:1]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
 
     if args.convert:
         convert_format(args, cps, cs_content)
-- 
2.43.0


From ac86444d424c3a7432cab3d5f7089f6e0a304da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 07/92] fix: -text_halo 0 had no effect

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index b2aa8cb..e86bfdb 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -231,7 +231,7 @@ def construct_cps_dict(args,c,f):
         else:
             c['xrange'] = cst.DEFAULT_XRANGE['Hartmann']
             c['yrange'] = cst.DEFAULT_YRANGE['Hartmann']
-    if not c['text_halo']:
+    if c['text_halo'] is None:
         c['text_halo'] = 0 if c['presentation'] in ('uncertainty','sequence','chronology','rate') else 1
 
     return c
-- 
2.43.0


From 19a0604344a37bf7a6c77b872106cdd260aa913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 08/92] fix: -i with relative path including directory

---
 src/craterstats/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e86bfdb..e27c02f 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -40,6 +40,7 @@ class LoadFromFile(argparse.Action):
             self.work_dir = gm.filename(values,'p')
             if os.path.isdir(self.work_dir):
                 os.chdir(self.work_dir)
+                values = os.path.basename(values) # now relative to work_dir
         try:
             with open(values) as f:
                 # parse arguments in the file and store them in the target namespace
-- 
2.43.0


From 476352139bf731da76e6195405dcee471be5ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 09/92] fix: quote arguments starting with '-' in saved .cs
 file

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e27c02f..0f9c1c0 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -533,7 +533,7 @@ def main(args0=None):
     cpl = [cst.Craterplot(d) for d in cp_dicts]
     cps.craterplot=cpl
 
-    cs_content = ''.join(['\n'+e if e[:1]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
+    cs_content = ''.join(['\n'+shlex.quote(e) if e[:1]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
 
     if args.convert:
         convert_format(args, cps, cs_content)
-- 
2.43.0


From e19d14dbb06afc16ecf754cbd3c51ccef290b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 10/92] fix: merge crater count files without perimeter

---
 src/craterstats/miscellaneous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index b979028..aa8fbdc 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -141,13 +141,13 @@ def merge_cratercounts(args,equal_weight=False):
         d += cc.diam
         frac += fraction
         a += area
-        p += cc.perimeter
+        p = None if p is None or cc.perimeter is None else p + cc.perimeter # unknown if not given for all
 
     s = (['# Merged crater diameter file', '#----------------------------', '#']
            + ['# ' + gm.filename(f, "ne") for f in fs]
            + ['#']
            + [f"area = {a}"]
-           + [f"perimeter = {p}"]
+           + ([f"perimeter = {p}"] if p is not None else [])
            + ['#',"crater = {diameter, fraction"]
            + [f"{a:<12g}  {b:g}" for a,b in zip(d,frac)]
            + ['}']
-- 
2.43.0


From d6715fe6c52b7250c593ee28c1ccac1ef41e16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 11/92] fix: sequence table could not be created

---
 src/craterstats/Craterpdf.py     | 2 +-
 src/craterstats/Craterplotset.py | 6 +++---
 src/craterstats/cli.py           | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 92ca520..a619176 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -48,7 +48,7 @@ class Craterpdf:
             q = np.where((b['d_min'] >= d_range[0]) & (b['d_max'] <= d_range[1]))
             self.k = np.sum(b['n_event'][q])
 
-        if not lam:
+        if lam is None:
             if bcc: #buffered count
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a9458d5..f2abcdc 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -752,7 +752,7 @@ class Craterplotset:
 
         # calculate sequence table
         show_self_comparison = False
-        cpl = [e for e in self.craterplot if e.type in ['poisson','buffered-poisson'] and not e.hide]
+        cpl = [e for e in self.craterplot if e.type in ['poisson','b-poisson'] and not e.hide]
         n = len(cpl)
         if n<2: return
         s=[['' for i in range(n+1)] for j in range(n+1)]
@@ -785,10 +785,10 @@ class Craterplotset:
         # combined pdf
 
         pdf3 = copy.deepcopy(pdf2[0])
-        pdf3.pdf = np.product([e.pdf for e in pdf2],0)
+        pdf3.pdf = np.prod([e.pdf for e in pdf2],0)
 
         rel_probs =  [e.relative_probability(t0) for e,t0 in zip(pdf2,t)]
-        compound_prob = np.product(rel_probs)
+        compound_prob = np.prod(rel_probs)
 
         worse = np.where(pdf3.pdf < compound_prob, pdf3.dt * pdf3.pdf, 0)
         prob_worse = sum(worse)/sum(pdf3.dt * pdf3.pdf)
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 0f9c1c0..ae1296d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -468,6 +468,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         if f in {'csv'} and not cps.presentation == 'uncertainty':
             cps.create_summary_table(f_out=cps.out + '.' + f)
 
+    if args.sequence_table:
+        cps.create_sequence_table(cps.out + '_sequence.csv')
+
 def print_with_highlights(s):
     for line in s:
         if line != '' and line[0] == '*':
-- 
2.43.0


From a39d2663f057068b81f10cacd0807be693f5309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 12/92] fix: -measure option had no effect

---
 src/craterstats/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index ae1296d..df5a2d9 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -405,8 +405,8 @@ def randomness_analysis(args,cps,progress_queue=None):
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
     if args.measure:
-        cps.measures = set(args.measure.split(','))
-        diff = cps.measures - {'m2cnd','sdaa'}
+        cps.measure = set(args.measure.split(','))
+        diff = cps.measure - {'m2cnd','sdaa'}
         if diff:
             sys.exit(f"Invalid measure: {diff}")
     for measure in cps.measure:
-- 
2.43.0


From c75c6750b0ba99ecd6160bfb52e0bfa6cef291c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 13/92] fix: read exponent of Total_area/Total_perimeter in
 .scc file

---
 src/craterstats/Cratercount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9c118cc..908b698 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -174,11 +174,11 @@ class Cratercount:
 
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
 
-        self.area=float(re.findall(r'\s*[\d\.]*',s['Total_area'])[0])
+        self.area=float(re.findall(r'\s*[\d\.]*(?:[eE][+-]?\d+)?',s['Total_area'])[0])
         if 'Perimeter' in s.keys():
             self.perimeter = float(s['Perimeter'].split()[0])
         if 'Total_perimeter' in s.keys(): #for Thomas Heyer's OpenCraterTool
-            self.perimeter = float(re.findall(r'\s*[\d\.]*',s['Total_perimeter'])[0])
+            self.perimeter = float(re.findall(r'\s*[\d\.]*(?:[eE][+-]?\d+)?',s['Total_perimeter'])[0])
         self.diam=[diam[e] for e in q]
         self.fraction=[frac[e] for e in q]
         self.prebinned=0
-- 
2.43.0


From 05fe2d2c0233561577c4d01e1e82e60e45007b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 14/92] fix: don't treat island within a hole as another hole

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index d950186..34a3ce1 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -97,7 +97,7 @@ class Spatialcount:
             if not internal:
                 holes=[]
                 for j, internal1 in z[i:]:
-                    if sph.within(d[j][1],d[i][1]):
+                    if internal1 and sph.within(d[j][1],d[i][1]):
                         holes += [d[j][0]]
                 p += [sph.create_polygon(shell=d[i][0], holes=holes)]
 
-- 
2.43.0


From d52cf3659ed4c08c792754e746e38495d55dab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 15/92] fix: randomness analysis repeated under new name for
 second output format

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index df5a2d9..9b21e55 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -400,7 +400,7 @@ def cs_source(v):
 
 
 def randomness_analysis(args,cps,progress_queue=None):
-    out = '' if cps.out=='out' or cps.out is None else gm.filename(cps.out,'pn')
+    out = '' if cps.out=='out' or cps.out is None else re.sub(r'_ra$','',gm.filename(cps.out,'pn')) # '_ra' already present if further format/replay
     ra = cst.Randomnessanalysis(cs_source(args.randomness_analysis), out=out,progress_queue=progress_queue)
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
-- 
2.43.0


From cbc46b887d44ba9ba2c4c4237b92ca1cf3651f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 16/92] fix: choose range column separately for each row of
 summary table

---
 src/craterstats/Craterplotset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index f2abcdc..9920531 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -681,7 +681,7 @@ class Craterplotset:
         table = (('name', '24', '', None),
                  ('area', '8', '.5g', None),
                  ('binning', '>10', '', None),
-                 ('bin_range' if d['type'] in ('c-fit','d-fit') and d['resurf'] != 1 else 'range', '5', '.2g', ('d_min', 'd_max')),
+                 ('range', '5', '.2g', ('d_min', 'd_max')),
                  ('type', '>9', '', ('Method',)),
                  ('resurf', '6', '', None),
                  ('n', '7', '', None),
@@ -710,6 +710,7 @@ class Craterplotset:
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
+                if k == 'range' and d['type'] in ('c-fit','d-fit') and d['resurf'] != 1: k = 'bin_range'
                 if k in ('range','bin_range','t','a0'):
                     v = ','.join([f"{e:{f}}" for e in d[k]])
                     if k in ('range','bin_range'):
-- 
2.43.0


From 57d9cb911cd561be0301c9f941281408f2117191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 17/92] fix: quote names containing commas in summary table

---
 src/craterstats/Craterplotset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 9920531..92f9136 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -728,6 +728,8 @@ class Craterplotset:
                     v=txt_range
                 else:
                     v = f"{d[k]:{f}}"
+                    if k in ('name','source') and ',' in v: # keep within single csv field
+                        v = '"' + gm.strip_quotes(v).replace('"','""') + '"'
                 ln+=[v]
             st += '\n'+','.join(ln)+'," "'
 
-- 
2.43.0


From 4f537a12f6a0285be8e592052a74c60434a6674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 18/92] fix: use logarithmic sampling for buffered-poisson
 integral over wide diameter range

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index a619176..e4425e4 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -53,7 +53,7 @@ class Craterpdf:
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
                 ns=500 #samples of PF for integration
-                d=np.linspace(d_range[0], d_range[1], ns)
+                d=np.geomspace(d_range[0], d_range[1], ns)
                 F=pf.F(d,a0)
                 y=(cc.area+d*cc.perimeter/2.+np.pi*d**2/4.)*F
                 I1=simpson(y,d)
-- 
2.43.0


From e2951f4a253095cbe3b494a8d8b4cedbd190b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 19/92] fix: write shapefiles for count with multiple area
 polygons

---
 src/craterstats/Spatialcount.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 34a3ce1..1afd26a 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -321,13 +321,14 @@ class Spatialcount:
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
-            y = shp.from_wkb(z)
-            x = shp.get_exterior_ring(y)
-            rings = [list(x.coords)]
-            for j in range(shp.get_num_interior_rings(y)):
-                x = shp.get_interior_ring(y,j)
-                rings.append(list(x.coords))  # Append holes
-            decomposed += [rings]
+            geom = shp.from_wkb(z)
+            for y in geom.geoms if geom.geom_type == "MultiPolygon" else [geom]:
+                x = shp.get_exterior_ring(y)
+                rings = [list(x.coords)]
+                for j in range(shp.get_num_interior_rings(y)):
+                    x = shp.get_interior_ring(y,j)
+                    rings.append(list(x.coords))  # Append holes
+                decomposed += [rings]
         return decomposed
 
 
-- 
2.43.0


From 5fef59a525ad589a27adb867806eea32b3816027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 20/92] fix: tag exterior of each part of multipart area
 polygon when writing .scc file

---
 src/craterstats/Spatialcount.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 1afd26a..562331e 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -208,13 +208,11 @@ class Spatialcount:
     def writeSCCfile(self, filename=None):
         sub_area, tag, pts = [],[],[]
         i = 1
-        for shape in self.sa: # might be better to use technique from write_SHP, i.e. dismantle self.polygon
-            parts = list(shape.parts) + [len(shape.points)]
-            pts += shape.points
-            for j in range(len(shape.parts)):
-                n = parts[j + 1] - parts[j]
-                tag += ['ext' if j==0 else 'int'] * n
-                sub_area += [i] * n
+        for rings in self.polygon_to_pts(): # a single shape may contain several exterior rings
+            for j, ring in enumerate(rings):
+                pts += ring
+                tag += ['ext' if j==0 else 'int'] * len(ring)
+                sub_area += [i] * len(ring)
                 i += 1
         boundary_table = [f"{i:<5}\t{a:<5}\t{b:<4}\t{c[0]:23.15f}\t{c[1]:23.15f}"
                           for i, (a, b, c) in enumerate(zip(sub_area, tag, pts), start=1)]
-- 
2.43.0


From d07183b7bb4298fe898f0ab7c3e62ae54a50f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 21/92] fix: ring orientation in written shapefiles

---
 src/craterstats/Spatialcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 562331e..78572e0 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -263,7 +263,7 @@ class Spatialcount:
         rims,wkt = self.find_rims()
         for d, x, y, r in zip(self.diam, self.lon, self.lat, rims):
             c.record(Diam_km=d, x_coord=x, y_coord=y, tag='standard')
-            c.poly([list(zip(*r))])
+            c.poly([list(zip(*r))[::-1]]) # exterior ring is clockwise in shapefile
         c.close()
         gm.write_textfile(gm.filename(fc,'pn1','.prj'),wkt)
         shutil.copy(cst.PATH + 'config/_CRATER.qml', gm.filename(fc,'pn1','.qml'))
@@ -275,7 +275,7 @@ class Spatialcount:
         a.field('area_name', 'C', 30)
         decomposed = self.polygon_to_pts()
         for i, p in enumerate(decomposed):
-            a.poly(p)
+            a.poly([r[::-1] for r in p]) # exterior ring is clockwise in shapefile, holes anticlockwise
             a.record(None, f'Area_{i + 1}')
         a.close()
         gm.write_textfile(gm.filename(fa, 'pn1', '.prj'), wkt)
-- 
2.43.0


From 207b59a58ff6cedbf6d4ed2e1d2034c3c7e214e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 22/92] fix: Monte Carlo trials repeated between parallel
 processes

---
 src/craterstats/Randomnessanalysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0a35941..c5c0cec 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -480,7 +480,9 @@ def run_trial(self_pp, b, n, trial_index):
     m, _ = evaluate_randomness(self_pp, pts, ids, hpd)
     return m
 
-def run_trial_wrapper(self_pp, b, n, trial_index, progress):
+def run_trial_wrapper(self_pp, b, n, trial_index, progress, seed=None):
+    if seed is not None:
+        np.random.seed(seed) # forked processes inherit identical random state: would repeat trials
     result = run_trial(self_pp, b, n, trial_index)
     if progress is not None:
         progress.value += 1 # Update shared progress
@@ -504,7 +506,8 @@ def montecarlo_pp(self_pp, b, n, progress_queue=None):
 
         with ProcessPoolExecutor(max_workers=self_pp.max_threads) as executor:
             trial_indices = range(self_pp.trials)
-            args = [(self_pp, b, n, trial_index, progress) for trial_index in trial_indices]
+            seeds = np.random.randint(0, 2**32, size=self_pp.trials, dtype=np.int64)
+            args = [(self_pp, b, n, trial_index, progress, seed) for trial_index, seed in zip(trial_indices, seeds)]
 
             # Submit tasks to executor and track futures
             futures = [executor.submit(run_trial_wrapper, *arg) for arg in args]
-- 
2.43.0


From f0ce10b30f17eb1807f4ed6d66fd38c257f1e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 23/92] fix: crater lost from histogram when within rounding
 error below bin boundary

---
 src/craterstats/Cratercount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 908b698..1dfbab0 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -267,6 +267,8 @@ class Cratercount:
 
         q=np.searchsorted(bins,10**r10)
         needed_bins = bins[np.clip(q[0]-1,0,None):q[1]+1]
+        if expand and len(d)>0 and needed_bins[0] > np.min(d): # smallest value is within rounding error below a boundary
+            return self.generate_bins(binning,np.append(d,np.min(d)*(1-1e-9)),offset=offset)
         return needed_bins
 
 
-- 
2.43.0


From 9230fd3f4bca51c94cac13fc06257f1cea588d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 24/92] fix: range wholly above or below data selected end bin

---
 src/craterstats/Cratercount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 1dfbab0..e2b21f5 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -340,7 +340,8 @@ class Cratercount:
 
         if r1[1] < r1[0]: r1[1]=r1[0]
 
-        if self.binning != 'none':
+        overlap = r1[0] < self.binned['d_max'][-1] and r1[1] > self.binned['d_min'][0] # don't snap onto end bins if range is beyond data
+        if self.binning != 'none' and overlap:
             if snap1[0] and r1[0]>0:
                 r1[0] = self.binned['d_min'][max(np.searchsorted(self.binned['d_min'],r1[0]*(1.0000001))-1,0)]
             if snap1[1] and r1[1] <= self.binned['d_max'][-1]-1e-7:
-- 
2.43.0


From 64e37fb5092e1f127d8c30f8e3dbff35c6fba3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 25/92] fix: bin widths wrong when reading .stat file with gaps
 or a single row

---
 src/craterstats/Cratercount.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index e2b21f5..c56a201 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -118,7 +118,15 @@ class Cratercount:
         }
         self.prebinned = True
         self.binning = 'pseudo-log'
-        self.MakeBinGeometricMean()
+        if nc == 11: # find bin limits from given bin centres, because following bin may be missing
+            d_max = np.array([float(e[7]) for e in t])**2/diam
+            d_next = np.append(diam[1:],np.inf)
+            d_max = np.where(d_next > d_max*1.02, d_max, d_next)
+            self.binned.update({'d_mean':np.sqrt(diam*d_max),
+                                'bin_width':d_max-diam,
+                                'd_max':d_max})
+        else:
+            self.MakeBinGeometricMean()
 
     def ReadDiamFile(self):
         s= gm.read_textstructure(self.filename)
-- 
2.43.0


From 8d1eccb99c278d91327e4b7f8a8322817cad2880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 26/92] fix: requested output name ignored by --convert stat
 and scc

---
 src/craterstats/cli.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 9b21e55..5715b1e 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -303,29 +303,24 @@ def construct_plot_dicts(args,plot,cps_dict):
 
 def convert_format(args, cps, cs_content):
     def outfile(name, out, ext):
-        if out != 'out':
-            if os.path.isdir(out):
-                outfile = out + name + ext
-            else:
-                outfile = gm.filename(out, 'pn') + ext
+        if gm.filename(out, 'n') == 'out': # no output name given: take from source
+            outfile = gm.filename(out, 'p') + name + ext
         else:
-            outfile = name + ext
+            outfile = out + ext
         return outfile
 
     fmt, src = args.convert
     scc = cst.Spatialcount(src.replace('%sample%/', cst.PATH + 'sample/'))
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
-    out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
+    out = outfile(scc.name, cps.out, '.'+fmt1)
     match fmt1:
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
-            out = gm.filename(out, 'p1e', cc.name)
             cc.WriteStatFile(out)
         case 'scc':
             if fmt0 == 'shp':
                 scc = cst.Spatialcount(src)
-                out = gm.filename(out, 'p1e', scc.name)
                 scc.writeSCCfile(out)
         case 'shp':
             if fmt0 == 'scc':
-- 
2.43.0


From 8b2587986540e9633b904e10d9828c6d5e2af0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 27/92] fix: %sample% source not found by --convert stat, scc,
 shp

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 5715b1e..e9e3f13 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -310,7 +310,8 @@ def convert_format(args, cps, cs_content):
         return outfile
 
     fmt, src = args.convert
-    scc = cst.Spatialcount(src.replace('%sample%/', cst.PATH + 'sample/'))
+    src = cs_source(src)
+    scc = cst.Spatialcount(src)
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
     out = outfile(scc.name, cps.out, '.'+fmt1)
-- 
2.43.0


From 9e7d3ff6ce0ae72f8cf40c2080858efadb146643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 28/92] fix: resurfacing correction not converged for low
 crater densities

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index c56a201..3593ffc 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -375,7 +375,7 @@ class Cratercount:
                 a0=pf.fit(p)
                 ncum_adj=pf.evaluate("cumulative",p['d'][n-1],a0[0])-p0['y'][n-1]
                 count+=1
-                if abs(ncum_adj0-ncum_adj) < .0001 or count > 20:
+                if abs(ncum_adj0-ncum_adj) < .0001*abs(p0['y'][n-1]) or count > 20:
                     break
         return ncum_adj
 
-- 
2.43.0


From 5a9578c4a0f742e68592f792d1052b97b37a7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 29/92] fix: N(d_ref) columns of summary table contained N(1)

---
 src/craterstats/Craterplotset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 92f9136..f1c9290 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -716,12 +716,12 @@ class Craterplotset:
                     if k in ('range','bin_range'):
                         txt_range=gm.diameter_range(d[k])
                 elif k=='n_d':
-                    v = ','.join([f"{10**e:{f}}" for e in d['a0']])
+                    v = ','.join([f"{self.pf.evaluate('cumulative', self.ref_diameter, e):{f}}" for e in d['a0']])
                 elif k in ('Latex','MathML'):
                     t = d['t']
                     v0 = cst.str_age(t[0], t[2] - t[0], t[0] - t[1], mu=self.mu, MathML = k=='MathML')
-                    a0 = d['a0']
-                    v1 = gm.scientific_notation(10**a0[0],10**a0[2],10**a0[1], unit='km-2', MathML = k=='MathML')
+                    n_d = [self.pf.evaluate('cumulative', self.ref_diameter, e) for e in d['a0']]
+                    v1 = gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2', MathML = k=='MathML')
                     v=v0+','+v1
                 elif k==' ':v=' '
                 elif k == 'Range':
-- 
2.43.0


From 46815ffa11a827a3cddcfbbc24beb986de974f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 30/92] fix: AttributeError plotting tabular production
 function without level

---
 src/craterstats/Productionfn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index e8f220b..85d554c 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -222,7 +222,6 @@ class Productionfn:
         :return: dict with series of values for plotting
         '''
         ns=400
-        if a0 is None: a0 = self.a[0]
         if range is None: range=self.range
         range=np.clip(range,self.range[0],self.range[1])
         log_d=np.linspace(np.log10(range[0]),np.log10(range[1]),ns)
-- 
2.43.0


From 5788917bcbe3470de297ec58de4d68f16e776b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 31/92] fix: N(d_ref) in legend was N(1); fractional d_ref
 truncated in chronology axis title

---
 src/craterstats/Craterplot.py    | 3 ++-
 src/craterstats/Craterplotset.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index c9517cb..4e8c4af 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -258,7 +258,8 @@ class Craterplot:
                     r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
-                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(10**self.a0[0],10**self.a0[2],10**self.a0[1], unit='km-2')]
+                n_d = [cps.pf.evaluate('cumulative', cps.ref_diameter, e) for e in self.a0]
+                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2')]
 
 
         if self.type=='data':
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index f1c9290..2deb978 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -200,8 +200,8 @@ class Craterplotset:
             'differential': 'Differential crater density, km$^{-3}$',
             'R-plot': 'Relative crater density (R)',
             'Hartmann':     'Craters per $√$2-bin'+(' (equivalent)' if nonroot2 else '')+', km$^{-2}$',
-            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$',
-            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$ Ga$^{-1}$',
+            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$',
+            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$ Ga$^{-1}$',
             }[self.presentation]
         
         title = ('\n'.join(self.title.split('|')) if self.title else None)
-- 
2.43.0


From a9b023e04c7ace1ed994c9b966d5d2eff6e9c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 32/92] fix: ValueError for fractional reference diameter in
 epoch definition

---
 src/craterstats/Epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Epochs.py b/src/craterstats/Epochs.py
index 2d25d21..d086271 100644
--- a/src/craterstats/Epochs.py
+++ b/src/craterstats/Epochs.py
@@ -32,7 +32,7 @@ class Epochs:
         self.name = definition['name']
         self.epoch = definition['epoch']
         self.formatting = definition['formatting']
-        self.ref_diameter = [int(e) for e in definition['ref_diameter']] if 'ref_diameter' in definition else None
+        self.ref_diameter = [float(e) for e in definition['ref_diameter']] if 'ref_diameter' in definition else None
         self.density = [float(e) for e in definition['density']] if 'density' in definition else None
         self.time = [float(e) for e in definition['time']] if 'time' in definition else None
         self.reference = definition['reference']
-- 
2.43.0


From 5e5334b13af4dbecdc1ce595d9770f347cf25c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 33/92] fix: no lower limit for differential fit with single
 crater in first bin

---
 src/craterstats/Productionfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 85d554c..8dd35a1 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -208,7 +208,8 @@ class Productionfn:
                 func, sigma = self.F10, 1 / np.sqrt(err)
 
         popt, pcov = sc.curve_fit(func, np.log10(d), np.log10(y),sigma=sigma)
-        a0=popt[0]-[0,np.log10(y[0])-np.log10(y[0]-.98*err[0]),np.log10(y[0])-np.log10(y[0]+.98*err[0])]
+        err_lower=min(err[0],y[0]) # error may exceed density for single crater, because bias correction is only applied to density
+        a0=popt[0]-[0,np.log10(y[0])-np.log10(y[0]-.98*err_lower),np.log10(y[0])-np.log10(y[0]+.98*err[0])]
         return a0
 
 
-- 
2.43.0


From b4aab0a43f07fc20334d129a4e0b6ed7be1b8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 34/92] fix: nan age or IndexError from poisson evaluation of
 density far beyond end of chronology function

---
 src/craterstats/Craterpdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index e4425e4..13fc379 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -65,7 +65,9 @@ class Craterpdf:
         pdf0 = gm.poisson(self.k, lam) * cf.phi(self.ts) # include dC/dt factor
         pdf0 = pdf0.astype(float)
         if np.sum(pdf0)<1e-30: #force line peak if under-resolved
-            pdf0[np.searchsorted(lam, self.k)] = 1.
+            pdf0[min(np.searchsorted(lam, self.k), n_samples-1)] = 1.
+        if np.sum(pdf0*self.dt)==0: #density far beyond end of chronology function
+            pdf0[np.flatnonzero(self.dt)[-1]] = 1.
         self.lam = lam
         self.pdf = pdf0/np.sum(pdf0*self.dt)
         self.cdf = np.cumsum(self.pdf*self.dt)
-- 
2.43.0


From 4ccfaa38f74a2485617077b130db20a597bf1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 35/92] fix: poisson age distribution truncated near 4.4 Ga for
 steep chronology function

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 13fc379..8f55993 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -32,8 +32,8 @@ class Craterpdf:
         :param n_samples: number of samples for likelihood curve
         """
 
-        x=np.linspace(-10, 5, n_samples) #additive change to a0 (equidistant in fitting space)
         a0=cf.a0(1.)
+        x=np.linspace(-10, max(5, cf.a0(5.)-a0), n_samples) #additive change to a0 (equidistant in fitting space), reaching whole chronology fn
         self.ts = cf.t(a0=a0+x)
         self.dt = self.ts - np.roll(self.ts, 1)
         self.dt[0] = self.dt[1]
-- 
2.43.0


From a6ae7b569dcc33678a70e90d7808230ce2b1fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 36/92] fix: overflow in poisson evaluation of density far
 beyond end of chronology function

---
 src/craterstats/Craterpdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 8f55993..d276628 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -66,8 +66,8 @@ class Craterpdf:
         pdf0 = pdf0.astype(float)
         if np.sum(pdf0)<1e-30: #force line peak if under-resolved
             pdf0[min(np.searchsorted(lam, self.k), n_samples-1)] = 1.
-        if np.sum(pdf0*self.dt)==0: #density far beyond end of chronology function
-            pdf0[np.flatnonzero(self.dt)[-1]] = 1.
+        if np.sum(pdf0*self.dt)<1e-200: #density far beyond end of chronology function
+            pdf0 = np.where(np.arange(n_samples)==np.flatnonzero(self.dt>0)[-1], 1., 0.)
         self.lam = lam
         self.pdf = pdf0/np.sum(pdf0*self.dt)
         self.cdf = np.cumsum(self.pdf*self.dt)
-- 
2.43.0


From a4fce98978fcb6854051cc164ff8d31bcf4777f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 37/92] fix: quote names containing commas in sequence table

---
 src/craterstats/Craterplotset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 2deb978..01ec6dd 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -759,10 +759,11 @@ class Craterplotset:
         n = len(cpl)
         if n<2: return
         s=[['' for i in range(n+1)] for j in range(n+1)]
+        names=['"' + gm.strip_quotes(e.name).replace('"','""') + '"' if ',' in e.name else e.name for e in cpl] # keep within single csv field
 
         for i in range(n):
             cpl[i].calculate_age(self)
-            s[i][0]=cpl[i].name
+            s[i][0]=names[i]
 
         for i in range(n):
             for j in range(i if show_self_comparison else i+1,n):
@@ -770,7 +771,7 @@ class Craterplotset:
                 s[i][j+1] = gm.sigfigs(1.-P,2)
                 s[j][i+1] = gm.sigfigs(P,2)
 
-        st='Table of probability that t(x)>t(y)\n'+'\n'.join([','+','.join([cpl[i].name for i in range(n)])]+[','.join(e) for e in s])
+        st='Table of probability that t(x)>t(y)\n'+'\n'.join([','+','.join(names)]+[','.join(e) for e in s])
 
         # calculate probability of simultaneous formation vs median time formation
 
-- 
2.43.0


From 7d87bdfd23341db1873ace7198ad99e248025f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 38/92] fix: percentile precision lost close to 100

---
 src/craterstats/gm/string/percentile_sigfigs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/string/percentile_sigfigs.py b/src/craterstats/gm/string/percentile_sigfigs.py
index 77aee58..b75fd6d 100644
--- a/src/craterstats/gm/string/percentile_sigfigs.py
+++ b/src/craterstats/gm/string/percentile_sigfigs.py
@@ -13,7 +13,7 @@ def percentile_sigfigs(p, sf=2):
     if p < 50:
         res = f"{p:.{sf}g}"
     else:
-        digits = len(f"{100 - p:.{sf}g}")
+        digits = len(np.format_float_positional(float(f"{100 - p:.{sf}g}"), trim='-')) # without exponent
         res = f"{p:.{max(digits - 2, 0)}f}"
     return res
 
-- 
2.43.0


From 43982615421b402a1c2043a7885da0557a2f5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 39/92] fix: IndexError for empty colour in overplot
 specification

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e9e3f13..11976d9 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -278,7 +278,7 @@ def construct_plot_dicts(args,plot,cps_dict):
             elif k == 'binning':
                 p[k] = cst.Cratercount.BINNINGS[decode_abbreviation(cst.Cratercount.BINNINGS, v, allow_ambiguous=True)]
             elif k == 'colour':
-                if v[0]=='#':
+                if v[:1]=='#':
                     if bool(re.match(r'^#([0-9A-Fa-f]{6})$', v)):
                         p[k]=v
                     else:
-- 
2.43.0


From 93920cbe2a21906faf4d8535c3f094a3c323c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 40/92] fix: file name lost if it contains parentheses or other
 punctuation

---
 src/craterstats/gm/file/filename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/filename.py b/src/craterstats/gm/file/filename.py
index 6b0eaef..ab67e12 100644
--- a/src/craterstats/gm/file/filename.py
+++ b/src/craterstats/gm/file/filename.py
@@ -24,7 +24,7 @@ def filename(f,code,insert1=None,insert2=None,max_ext_length=4):
     if type(f) is list:
         return [filename(e,code,insert1=insert1,insert2=insert2) for e in f]
 
-    m = re.search(r'(?P<path>.*?)(?P<name>[\.,= \w-]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
+    m = re.search(r'(?P<path>(?:.*[\\/:])?)(?P<name>[^\\/:]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
     path=m['path']
     name=m['name']
     ext = m['ext']
-- 
2.43.0


From d4cddda505f31ae7624cd7c0081142c2fae03908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 41/92] fix: saved .cs file wrote to wrong path if run when -o
 included a directory

---
 src/craterstats/cli.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 11976d9..89916e2 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -333,7 +333,7 @@ def convert_format(args, cps, cs_content):
                 out = re.sub(r'_?CRATER_?', '', out)
                 if not args.input:
                     out = gm.filename(out, 'pn1e','_map')
-                    gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
+                    write_cs_file(args, gm.filename(out, 'pn'), cs_content)
                 cps.create_map_plotspace()
                 scc.plot(cps,grid=True)
                 cps.fig.savefig(out, dpi=500, transparent=cps.transparent, bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
@@ -467,6 +467,13 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
     if args.sequence_table:
         cps.create_sequence_table(cps.out + '_sequence.csv')
 
+def write_cs_file(args, out, cs_content):
+    if args.out: # file will be run from own directory: output name should be relative to this
+        name = os.path.basename(out) + ('' if os.path.isdir(args.out) else gm.filename(args.out, 'e'))
+        if name != args.out:
+            cs_content += '\n-o ' + shlex.quote(name)
+    gm.write_textfile(out + '.cs', cs_content)
+
 def print_with_highlights(s):
     for line in s:
         if line != '' and line[0] == '*':
@@ -545,7 +552,7 @@ def main(args0=None):
     write_output_files(args,cps)
 
     if not args.input:
-            gm.write_textfile(cps.out + '.cs', cs_content)
+            write_cs_file(args, cps.out, cs_content)
 
 if __name__ == '__main__': 
     main()
-- 
2.43.0


From 12f9bebeb60d061b04fec901ec0da021b327238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 42/92] fix: saved .cs file with output name starting with '-'

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 89916e2..dad171c 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -471,7 +471,7 @@ def write_cs_file(args, out, cs_content):
     if args.out: # file will be run from own directory: output name should be relative to this
         name = os.path.basename(out) + ('' if os.path.isdir(args.out) else gm.filename(args.out, 'e'))
         if name != args.out:
-            cs_content += '\n-o ' + shlex.quote(name)
+            cs_content += '\n' + shlex.quote('--out=' + name)
     gm.write_textfile(out + '.cs', cs_content)
 
 def print_with_highlights(s):
-- 
2.43.0


From ba98c60067679b3a2dc21084ec05bb883adb1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 43/92] fix: automatic axes failed for unbinned non-cumulative
 overplots beside others

An overplot with binning 'none' has no finite density in a differential, R or
Hartmann plot and is not drawn, but its infinite range entered the union (or, if
it was the only one, an unusable default).
---
 src/craterstats/Craterplotset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 01ec6dd..f4f9087 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -606,10 +606,11 @@ class Craterplotset:
         ranges = []
         for cp in self.craterplot:
             try:
-                ranges.append(cp.get_data_range(self))
+                r = cp.get_data_range(self)
+                if np.all(np.isfinite(r)): ranges.append(r)
             except Exception: # non-cml, binning=none. This is ugly - better to test and skip these (and hidden plots)
                 pass
-        x0, x1, y0, y1 = zip(*ranges) if ranges else  (*cst.DEFAULT_XRANGE[self.presentation], *cst.DEFAULT_YRANGE[self.presentation])
+        x0, x1, y0, y1 = zip(*ranges) if ranges else [[np.nan]]*4 # nan: use default ranges
 
         mx = (.3, .8) # minimum empty margin
         my = [e * (2 if self.presentation=='differential' else 1) for e in [.3,.3]] # minimum empty margin
-- 
2.43.0


From d7a608f6f601740a43d6678835c43eb0d34b7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 44/92] fix: root-2 axis failed with fewer than two labelled
 diameters, had no unit above 1 km

Hartmann_bins raised for ranges holding none or one of the labelled diameters
(e.g. -style root-2 -xrange .2 .4), and labelled ranges starting above 1 km
without any unit.
---
 src/craterstats/miscellaneous.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index aa8fbdc..f4b69bf 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -217,10 +217,11 @@ def Hartmann_bins(d_range):
     labels = [str(e) for e in
               (1, 2, 4, 8, 16, 31, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]
     labels[10] = '  ' + labels[10] + "km"
-    xtickv, xtickname = map(list, zip(*[(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]))
-    if xtickv[0] < 0: xtickname[0] += 'm'
-    xminor = (xtickv[1] - xtickv[0]) / 2
-    xminorv = [e+xminor for e in [xtickv[0]-2*xminor]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
+    tick = [(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]
+    xtickv, xtickname = [val for val, _ in tick], [txt for _, txt in tick]
+    if xtickv and xtickv[0] != 0: xtickname[0] += 'm' if xtickv[0] < 0 else 'km'
+    xminor = np.log10(2.) / 2
+    xminorv = [e+xminor for e in [v[0]-2*xminor]+v if d_range[0] <= e+xminor <= d_range[1]]
     return xtickv,xtickname,xminor,xminorv
 
 
-- 
2.43.0


From cb071c4001e7e3f1a93b46e9b5b950ecf006f0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 45/92] fix: plot with randomness results failed if no overplot
 had points

The position of the n_sigma sub-plot was undefined when default axis ranges are used.
---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index f4f9087..6a0a99e 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -635,6 +635,7 @@ class Craterplotset:
         if np.isnan(dx) or np.isnan(dy): # dx - empty crater files; dy - non-cml, binning=none
             xr = cst.DEFAULT_XRANGE[self.presentation]
             yr = cst.DEFAULT_YRANGE[self.presentation]
+            self.max_y = yr[1] - gm.mag(yr)*3/16 # position of n_sigma plot without data
         elif self.presentation == 'differential':
             if int(dy) % 2 == 1: # odd
                 yr += [0, 1] if big_bottom else [-1, 0]
-- 
2.43.0


From b68d763a9cc00d666ebc32af2fd978160c5162b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 46/92] fix: legend dropped names of data overplots beside fits

With fits which have no legend entry of their own (e.g. -legend na), the entry of
the next overplot was dropped with the fitted line's; likewise after an overplot
named 'fit'. The manual named the wrong suffix for hiding isochron labels.
---
 docs/manual.md                   | 2 +-
 src/craterstats/Craterplot.py    | 4 +++-
 src/craterstats/Craterplotset.py | 2 +-
 src/craterstats/constants.py     | 1 +
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/docs/manual.md b/docs/manual.md
index 3e94a8c..207dadb 100644
--- a/docs/manual.md
+++ b/docs/manual.md
@@ -121,7 +121,7 @@
 `-isochrons LIST`
   Comma-separated isochrons (e.g. `1,3,3.7a,4a`). Suffix options:
 
-  * `n` — suppress label
+  * `h` — suppress label
   * `a` — place label above instead of below
   * `s` — small font size
 
diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 4e8c4af..439e2c7 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -197,7 +197,7 @@ class Craterplot:
 
             expansion=np.array([.99,1.01])
             fit=cps.pf.getplotdata(cps.presentation,self.a0[0],range=self.range*expansion)
-            cps.ax.plot(np.log10(fit['d']), fit['y'], label='fit', color=self.colour, lw=.7*cps.sz_ratio)
+            fit_line, = cps.ax.plot(np.log10(fit['d']), fit['y'], color=self.colour, lw=.7*cps.sz_ratio)
 
             if self.show_age:
                 st=cst.str_age(self.t[0], self.t[2] - self.t[0], self.t[0] - self.t[1], cps.sig_figs, mu=cps.mu)
@@ -227,6 +227,8 @@ class Craterplot:
                     self.pdf.plot(ax,pt_size=cps.scaled_pt_size,color=self.colour,logscale=False)
 
         legend_label=self.make_legend_label(cps)
+        if legend_label and self.type!='data':
+            fit_line.set_label(cst.FIT_LABEL) # combine with following entry in legend
         cps.ax.plot(np.log10(p['d']),p['y'],label=', '.join(legend_label) if legend_label else None,
                     **cps.marker_def[self.psym],ls='',color=self.colour)
 
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 6a0a99e..e6cf102 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -537,7 +537,7 @@ class Craterplotset:
             if skip:
                 skip=False
                 continue
-            if e=='fit':
+            if e==cst.FIT_LABEL:
                 skip = True
                 if set(self.legend) & set('crN') != set():
                     h1.append((h[i],h[i+1]))
diff --git a/src/craterstats/constants.py b/src/craterstats/constants.py
index 65f5378..8e72225 100644
--- a/src/craterstats/constants.py
+++ b/src/craterstats/constants.py
@@ -24,6 +24,7 @@ DEFAULT_YRANGE = dict(zip(PRESENTATIONS, DEFAULT_YRANGE0))
 PLANETS = ('Moon', 'Mars', 'Mercury')
 SURFACE_AREAS = (3.79e7, 1.44e8, 7.48e7)
 
+FIT_LABEL = '\0fit' # internal label: not to coincide with any overplot name
 LINESTYLES = {'m2cnd':'--','sdaa':':'}
 
 # Constants for settings and plotting
-- 
2.43.0


From 2ac75094d2796afce12187e62e2ba69c88293853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 47/92] fix: legend range of fit without explicit range

Drawing a cumulative or differential fit with the default (unconstrained) range
failed with OverflowError while building its legend entry.
---
 src/craterstats/Craterplot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 439e2c7..2989779 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -257,7 +257,10 @@ class Craterplot:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
                     r=self.range
                 else:
-                    r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
+                    r=self.range.copy()
+                    if r[0] == 0: r[0]=self.cratercount.binned['d_min'][0] # limits of data, if unconstrained
+                    if np.isinf(r[1]): r[1]=self.cratercount.binned['d_max'][-1]
+                    r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
                 n_d = [cps.pf.evaluate('cumulative', cps.ref_diameter, e) for e in self.a0]
-- 
2.43.0


From f8160f218a7467c46c903b8e20f9b1c69d9125f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 48/92] fix: isochron wholly above equilibrium function made
 the plot fail

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index e6cf102..09d270f 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -570,6 +570,7 @@ class Craterplotset:
         for t,hide,above,small in isochrons:
             a0 = self.cf.a0(t)
             iso = self.pf.getisochron(self.presentation, a0, self.ef)
+            if iso['d'].size == 0: continue # wholly above equilibrium
             d10 = np.log10(iso['d'])
             self.ax.plot(d10, iso['y'], color=self.grey[0], lw=.5*self.sz_ratio)
             y_factor = self.data_aspect
-- 
2.43.0


From b5cf56caa50d4191be477a9b6211b040a7c9f308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 49/92] fix: isochron below equilibrium function's smallest
 diameter compared with value at its largest

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 8dd35a1..bf0bcca 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -244,7 +244,7 @@ class Productionfn:
         iso=self.getplotdata(presentation,a0)
         if ef:
             e=ef.getplotdata(presentation)
-            j= gm.value_locate(e['d'], iso['d'])
+            j= np.clip(gm.value_locate(e['d'], iso['d']),0,None)
             q= gm.where(iso['y'] < e['y'][j] * .8)
             iso={'presentation':presentation,'d':iso['d'][q],'y':iso['y'][q]}
 
-- 
2.43.0


From 25367131d779825f5b329e520dd37251ac3bc649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 50/92] fix: counting areas enclosing a pole could not be read

Longitudes of rings returned by spherely are continuous, so a ring around a
pole is not closed for shapely; and the enclosing lon/lat box of such an area
degenerates as a polygon.
---
 src/craterstats/Randomnessanalysis.py |  5 ++---
 src/craterstats/Spatialcount.py       | 13 ++++++-------
 src/craterstats/gm/misc/__init__.py   |  3 ++-
 src/craterstats/gm/misc/sph_to_shp.py | 14 ++++++++++++++
 4 files changed, 24 insertions(+), 11 deletions(-)
 create mode 100644 src/craterstats/gm/misc/sph_to_shp.py

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index c5c0cec..644d56f 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -84,7 +84,7 @@ class Randomnessanalysis(cst.Spatialcount):
         sz_ratio = ax.get_position().width/cps.ax.get_position().width
 
         # start from sph_polygons output (p2) from sdaa calc.
-        shp_polygons0 = [shp.from_wkb(sph.to_wkb(p)) for p in p2]
+        shp_polygons0 = [gm.sph_to_shp(p) for p in p2]
         # flatten any multipolygons (disjoint areas or holes should also be outlined)
         shp_polygons = [polygon for shape in shp_polygons0 for polygon in (shape.geoms if isinstance(shape, shp.MultiPolygon) else [shape])]
 
@@ -260,8 +260,7 @@ class Randomnessanalysis(cst.Spatialcount):
             self.ortho_proj = ortho_proj
 
             # do area
-            z = sph.to_wkb(self.polygon)
-            multipolygon = shp.from_wkb(z)
+            multipolygon = gm.sph_to_shp(self.polygon)
             p = []
 
             if not isinstance(multipolygon, shp.MultiPolygon):
diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 78572e0..eec08eb 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -190,7 +190,8 @@ class Spatialcount:
     def find_enclosing_polygon(self): # could be moved out to ra
         n_pole = sph.create_point(longitude=0, latitude=90)
         s_pole = sph.create_point(longitude=0, latitude=-90)
-        minx, miny, maxx, maxy = shp.from_wkt(sph.to_wkt(self.polygon)).bounds
+        polygon = gm.sph_to_shp(self.polygon)
+        minx, miny, maxx, maxy = polygon.bounds
         xr , yr = ( (minx,maxx), (miny,maxy) )
         if sph.covers(self.polygon, n_pole):
             yr = (miny, 90)
@@ -200,8 +201,8 @@ class Spatialcount:
             xr = (-180, 180)
         self.xr=xr
         self.yr=yr
-        enclosing_polygon = sph.create_polygon(shell=[(xr[0],yr[0]),(xr[0],yr[1]),(xr[1],yr[1]),(xr[1],yr[0])])
-        self.enclosing_area = sph.area(enclosing_polygon, radius=self.planetary_radius)
+        self.enclosing_area = (math.radians(xr[1] - xr[0]) * (math.sin(math.radians(yr[1])) - math.sin(math.radians(yr[0])))
+                               * self.planetary_radius ** 2)
         print(f"Range: {xr[0]:.2f}:{xr[1]:.2f} {yr[0]:.2f}:{yr[1]:.2f}, area: {self.area:.2f} km2, perimeter: {self.perimeter:.2f} km (planetary radius: {self.planetary_radius:0g} km)")
 
 
@@ -318,8 +319,7 @@ class Spatialcount:
             p0=self.polygon
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
-            z = sph.to_wkb(p)
-            geom = shp.from_wkb(z)
+            geom = gm.sph_to_shp(p)
             for y in geom.geoms if geom.geom_type == "MultiPolygon" else [geom]:
                 x = shp.get_exterior_ring(y)
                 rings = [list(x.coords)]
@@ -346,8 +346,7 @@ class Spatialcount:
         self.ortho_proj = ortho_proj
 
         # do area
-        z = sph.to_wkb(self.polygon)
-        multipolygon = shp.from_wkb(z)
+        multipolygon = gm.sph_to_shp(self.polygon)
 
         if not isinstance(multipolygon, shp.MultiPolygon):
             multipolygon = shp.MultiPolygon([multipolygon])
diff --git a/src/craterstats/gm/misc/__init__.py b/src/craterstats/gm/misc/__init__.py
index 8c01606..c410fea 100644
--- a/src/craterstats/gm/misc/__init__.py
+++ b/src/craterstats/gm/misc/__init__.py
@@ -1,4 +1,5 @@
 #  Copyright (c) 2026, Greg Michael
 #  Licensed under BSD 3-Clause License. See LICENSE.txt for details.
 
-from .iterator_with_progress import iterator_with_progress
\ No newline at end of file
+from .iterator_with_progress import iterator_with_progress
+from .sph_to_shp import sph_to_shp
diff --git a/src/craterstats/gm/misc/sph_to_shp.py b/src/craterstats/gm/misc/sph_to_shp.py
new file mode 100644
index 0000000..240086a
--- /dev/null
+++ b/src/craterstats/gm/misc/sph_to_shp.py
@@ -0,0 +1,14 @@
+#  Copyright (c) 2026, Greg Michael
+#  Licensed under BSD 3-Clause License. See LICENSE.txt for details.
+
+import shapely as shp
+import spherely as sph
+
+
+def sph_to_shp(geography):
+    """
+    convert spherely geography to shapely geometry with lon/lat coordinates
+
+    Longitudes are continuous along a ring, so that one around a pole ends 360 degrees from where it starts: 'fix' closes it
+    """
+    return shp.from_wkb(sph.to_wkb(geography), on_invalid='fix')
-- 
2.43.0


From 30d35b087fac60dd32572f392fd2e1ec753230b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 51/92] fix: enclosing range for random points missed parts of
 the counting area

Great circle edges reach beyond the latitudes of their vertices; several areas
either side of the antimeridian gave more than a full turn of longitude; areas
over both poles lost one of them.
---
 src/craterstats/Spatialcount.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index eec08eb..31ab61c 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -192,12 +192,18 @@ class Spatialcount:
         s_pole = sph.create_point(longitude=0, latitude=-90)
         polygon = gm.sph_to_shp(self.polygon)
         minx, miny, maxx, maxy = polygon.bounds
+        for geom in polygon.geoms if polygon.geom_type == "MultiPolygon" else [polygon]:
+            for ring in [geom.exterior, *geom.interiors]: # great circle edges may extend beyond latitudes of vertices
+                apex = self.edge_apex_latitudes(ring.coords)
+                miny, maxy = min([miny, *apex]), max([maxy, *apex])
         xr , yr = ( (minx,maxx), (miny,maxy) )
+        if maxx - minx > 360:
+            xr = (-180,180)
         if sph.covers(self.polygon, n_pole):
-            yr = (miny, 90)
+            yr = (yr[0], 90)
             xr = (-180,180)
         if sph.covers(self.polygon, s_pole):
-            yr = (-90, maxy)
+            yr = (-90, yr[1])
             xr = (-180, 180)
         self.xr=xr
         self.yr=yr
@@ -206,6 +212,19 @@ class Spatialcount:
         print(f"Range: {xr[0]:.2f}:{xr[1]:.2f} {yr[0]:.2f}:{yr[1]:.2f}, area: {self.area:.2f} km2, perimeter: {self.perimeter:.2f} km (planetary radius: {self.planetary_radius:0g} km)")
 
 
+    def edge_apex_latitudes(self, pts):
+        """
+        Latitudes where great circle edges between vertices turn from northward to southward or vice versa
+        """
+        lon, lat = np.array(pts).T
+        xyz = np.array(self.llr2xyz(lon, lat, 1.)).T
+        a, b = xyz[:-1], xyz[1:]
+        n = np.cross(a, b)
+        north0, north1 = np.cross(n, a)[:,2], np.cross(n, b)[:,2]
+        apex = np.degrees(np.arctan2(np.hypot(n[:,0], n[:,1]), np.abs(n[:,2])))
+        return [*apex[(north0 > 0) & (north1 < 0)], *-apex[(north0 < 0) & (north1 > 0)]]
+
+
     def writeSCCfile(self, filename=None):
         sub_area, tag, pts = [],[],[]
         i = 1
-- 
2.43.0


From 921749bd0246ac87dabc3898f6b1e65b01b337f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 52/92] fix: .scc areas with holes numbered before their
 exterior, holes in islands, or ring numbers not from 1 misread or failed

---
 src/craterstats/Spatialcount.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 31ab61c..ea65e4c 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -83,23 +83,15 @@ class Spatialcount:
             pts = [pt for pt, _ in groupby(pts)] # remove consecutive duplicates
             p = sph.create_polygon(shell=pts)
             d[i] = (pts, p) #, xyz(pts)) # xyz needs to be moved out
-            xr1 = gm.range([x for x,y in pts])
-            yr1 = gm.range([y for x, y in pts])
-            if i == 1:
-                xr=xr1
-                yr=yr1
-            else:
-                xr = (min(xr1[0], xr[0]), max(xr1[1], xr[1]))
-                yr = (min(yr1[0], yr[0]), max(yr1[1], yr[1]))
-
-        p=[]
-        for i, internal in z:
-            if not internal:
-                holes=[]
-                for j, internal1 in z[i:]:
-                    if internal1 and sph.within(d[j][1],d[i][1]):
-                        holes += [d[j][0]]
-                p += [sph.create_polygon(shell=d[i][0], holes=holes)]
+
+        exteriors = [i for i, internal in z if not internal]
+        holes = {i: [] for i in exteriors}
+        for j, internal in z:
+            if internal: # hole belongs to smallest exterior ring around it
+                enclosing = [i for i in exteriors if sph.within(d[j][1],d[i][1])]
+                if enclosing:
+                    holes[min(enclosing, key=lambda i: sph.area(d[i][1]))] += [d[j][0]]
+        p = [sph.create_polygon(shell=d[i][0], holes=holes[i]) for i in exteriors]
 
         p = sph.create_multipolygon(p) #merge if multiple
 
-- 
2.43.0


From f63a2486b4c23675790312cb610a0b8e686167c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 53/92] fix: rings of projected area shapefiles misread where
 they cross the antimeridian or enclose a pole

Exteriors and holes are told apart by orientation and containment in the
coordinates of the file, before conversion to longitude and latitude.
---
 src/craterstats/Spatialcount.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index ea65e4c..538c472 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -105,26 +105,28 @@ class Spatialcount:
         read crater and area shapefiles, extracting diameters, area, perimeter
 
         """
-        def read_shp(shp):
-            mtime = os.path.getmtime(shp)
-            prj_file = gm.filename(shp, 'pn1', '.prj')
+        def read_shp(shp_file):
+            mtime = os.path.getmtime(shp_file)
+            prj_file = gm.filename(shp_file, 'pn1', '.prj')
             wkt = gm.read_textfile(prj_file)[0]
             crs = prj.CRS.from_wkt(wkt)
             planetary_radius = crs.ellipsoid.semi_major_metre / 1e3
-            sf = shapefile.Reader(shp)
+            sf = shapefile.Reader(shp_file)
             shapes = sf.shapes()
+            geoms = [shp.geometry.shape(shape.__geo_interface__) for shape in shapes] # exteriors and holes told apart in map plane
 
             if not crs.is_geographic:
                 transformer = prj.Transformer.from_crs(crs, crs.geodetic_crs, always_xy=True)
+                geoms = [shp.transform(geom, transformer.transform, interleaved=False) for geom in geoms]
                 for shape in shapes:
                     xy = list(zip(*shape.points))
                     lons, lats = transformer.transform(xy[0], xy[1])
                     shape.points = [(lon, lat) for lon, lat in zip(lons, lats)]
 
-            return shapes, planetary_radius, mtime
+            return shapes, geoms, planetary_radius, mtime
 
-        sc, rc, tc = read_shp(self.crater_file)
-        sa, ra, ta = read_shp(self.area_file)
+        sc, _, rc, tc = read_shp(self.crater_file)
+        sa, ga, ra, ta = read_shp(self.area_file)
         if rc != ra:
             raise ValueError("Crater/Area shapefile planetary radii disagree")
         self.planetary_radius = rc
@@ -132,8 +134,7 @@ class Spatialcount:
         self.sa = sa
 
         multipolygon = []
-        for shp_record in sa:
-            geom = shp.geometry.shape(shp_record.__geo_interface__)
+        for geom in ga:
             polys = geom.geoms if geom.geom_type == "MultiPolygon" else [geom] # treat polygon and multipolygon uniformly
             for poly in polys:
                 shell = list(poly.exterior.coords)
-- 
2.43.0


From 0640d9b4b642649fa6631fee1275813652ad56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 54/92] fix: converted counting areas enclosing a pole could
 not be read back

---
 src/craterstats/Spatialcount.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 538c472..a73b69b 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -329,15 +329,21 @@ class Spatialcount:
         """
         if not p0:
             p0=self.polygon
+        def ring_pts(ring):
+            pts = list(ring.coords)
+            if abs(pts[-1][0] - pts[-2][0]) > 359: # ring around pole: first vertex repeated after full turn
+                del pts[-2]
+            return pts
+
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
             geom = gm.sph_to_shp(p)
             for y in geom.geoms if geom.geom_type == "MultiPolygon" else [geom]:
                 x = shp.get_exterior_ring(y)
-                rings = [list(x.coords)]
+                rings = [ring_pts(x)]
                 for j in range(shp.get_num_interior_rings(y)):
                     x = shp.get_interior_ring(y,j)
-                    rings.append(list(x.coords))  # Append holes
+                    rings.append(ring_pts(x))  # Append holes
                 decomposed += [rings]
         return decomposed
 
-- 
2.43.0


From badc966a26cdb6b61ec477aa7cb3a409eb0357e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 55/92] fix: outline written for a crater could be unreadable
 where its closing point differed by rounding

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index a73b69b..c874e4f 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -300,7 +300,7 @@ class Spatialcount:
         """
         lon,lat,diam = (craters.lon,craters.lat,craters.diam) if craters else (self.lon,self.lat,self.diam)
 
-        theta = [2 * math.pi * i / ns for i in range(ns + 1)]
+        theta = [2 * math.pi * (i % ns) / ns for i in range(ns + 1)] # last point same as first
         cx, cy = np.array([(math.cos(e), math.sin(e)) for e in theta]).T
         rs = f'{self.planetary_radius * 1e3:0.0f}'
         wkt = f'GEOGCS["Spherical_GCS_{rs}", DATUM["Sphere_{rs}", SPHEROID["Sphere_{rs}", {rs}, 0]], PRIMEM["Greenwich", 0], UNIT["Degree", 0.0174532925199433]]'
-- 
2.43.0


From d0ff87b04b9cf2fe557002172b6aff4e0978d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 56/92] fix: perimeter written in merged file was not read back

---
 src/craterstats/Cratercount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 3593ffc..d529f29 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -141,6 +141,8 @@ class Cratercount:
         else:                                               #normal case
             area=float(s['area'])
             frac=[float(e) for e in c['fraction']] if 'fraction' in c else [1.]*len(diam)
+            if 'perimeter' in s:
+                self.perimeter=float(s['perimeter'])
 
         if (min(frac)<0 or max(frac)>1) and self.buffered==0:
             self.errormsg="Crater list in "+self.filename+" has invalid crater fractions."
-- 
2.43.0


From 59babc6b369ceee275f99e2d972ecb6f311daf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 57/92] fix: merged file was not placed in the requested
 directory, and its default name lost what follows a dot

---
 src/craterstats/miscellaneous.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index f4b69bf..91eab0b 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -115,9 +115,13 @@ def merge_cratercounts(args,equal_weight=False):
         sys.exit("Specify at least two crater count files.")
 
     out=args.out
+    name='_'.join(sorted(gm.filename(fs, 'n'))) + '.diam'
     if not out:
-        out='_'.join(sorted(gm.filename(fs, 'n')))
-    out = gm.filename(out, 'pn1', '.diam')
+        out = name
+    elif os.path.isdir(out):
+        out = os.path.join(out, name)
+    else:
+        out = gm.filename(out, 'pn1', '.diam')
 
     d=[]
     frac=[]
-- 
2.43.0


From 1cb681e48ef3751246a52599b8d4af8630b57a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 58/92] fix: adjacent area measure failed for small counting
 areas

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 644d56f..cc930f1 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -647,7 +647,7 @@ def sdaa(self, pts, ids, hpd):
 
     center = np.array([0, 0, 0])
     radius = 1.0
-    sv = SphericalVoronoi(xyz, radius, center, threshold=1e-9)
+    sv = SphericalVoronoi(xyz, radius, center, threshold=1e-13)
     sv.sort_vertices_of_regions()
 
     xyz_polygons = [[sv.vertices[id] for id in region] for region in sv.regions]
-- 
2.43.0


From 29ebb2f535a1b6f8e381868a4355057f2a6f1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 59/92] fix: randomness analysis of a large area with few
 trials failed for want of a grid

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index cc930f1..f4e14c8 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -60,7 +60,7 @@ class Randomnessanalysis(cst.Spatialcount):
         desired_nbins = n/10
         desired_bin_area = self.area / desired_nbins
         desired_n_hpx = area_globe / desired_bin_area
-        nside = 2**round(np.log2(math.sqrt(desired_n_hpx/12)))
+        nside = 2**max(0,round(np.log2(math.sqrt(desired_n_hpx/12))))
         self.hp = hpx.HEALPix(nside=nside, order='nested')
 
     def oplot_neighbours(self,cps,craters,neighbours,ax=None):
-- 
2.43.0


From 1f6706fb0fe5bb97ce690de8a4ea2c4a7654295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 60/92] fix: randomness analysis missed neighbours in adjacent
 grid cells and could fail outside equatorial latitudes

---
 src/craterstats/Randomnessanalysis.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index f4e14c8..82746fd 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -547,6 +547,16 @@ def random_points_pp(self ,n):
     x = np.random.uniform(self.xr[0], self.xr[1], n)
     return zip(x ,y)
 
+def cone_search(hp, lon, lat, angular_radius):
+    """
+    HEALPix cells within angular radius (radians) of point (degrees)
+
+    For cones smaller than a cell, cone_search_lonlat() may omit an overlapped adjacent cell: always include these
+    """
+    id0 = int(hp.lonlat_to_healpix(lon*u.deg, lat*u.deg))
+    cells = hp.cone_search_lonlat(lon*u.deg, lat*u.deg, angular_radius*u.rad)
+    return {id0, *hp.neighbours(id0).flatten(), *cells}
+
 def sprinkle_discs_pp(self ,n ,diam):
     """
     generate z random points in enclosing area
@@ -568,7 +578,7 @@ def sprinkle_discs_pp(self ,n ,diam):
             if sph.within(pt, self.polygon):
 
                 # erase existing craters closer than diam/2
-                hpx_neighbours = self.hp.cone_search_lonlat(lon*u.deg, lat*u.deg, angular_radius*u.rad)
+                hpx_neighbours = cone_search(self.hp, lon, lat, angular_radius)
                 for id in hpx_neighbours:
                     if id in hpd:
                         len0 = len(hpd[id])
@@ -623,7 +633,7 @@ def kth_nearest_neighbour_pp(self, pts,ids,hpd, k=1):
             debug = 4
 
             # redefine neighbourhood based on known kth closest: if pt near edge, could be over hpx cell boundary
-            hpx_neighbours = self.hp.cone_search_lonlat(sph.get_x(pt) * u.deg, sph.get_y(pt) * u.deg, d0/self.planetary_radius * u.rad)
+            hpx_neighbours = cone_search(self.hp, sph.get_x(pt), sph.get_y(pt), d0/self.planetary_radius)
             d1, pt1 = get_kth(pt, hpx_neighbours)
             debug = 5
             neighbours += [pt1]
-- 
2.43.0


From f4feaf870dd121f92059bff82854bd6ec17e7eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 61/92] fix: randomness analysis with too few craters failed
 and left results with which the count could not be plotted

---
 src/craterstats/Randomnessanalysis.py | 5 ++---
 src/craterstats/cli.py                | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 82746fd..3837caf 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -26,6 +26,7 @@ class Randomnessanalysis(cst.Spatialcount):
     '''Applies randomness tests to Spatialcount'''
 
     MEASURES = ['m2cnd','sdaa']
+    MIN_COUNT = {'m2cnd':3, 'sdaa':4} # fewest craters in bin
     def __init__(self,filename=None,area_file=None,out=None,progress_queue=None):
         super().__init__(filename,area_file)
         self.init_Cratercount()
@@ -141,9 +142,7 @@ class Randomnessanalysis(cst.Spatialcount):
         """
         Prepare separate runs across bin range
         """
-        match measure:
-            case 'sdaa': min_count = 4
-            case 'm2cnd': min_count = 3
+        min_count = self.MIN_COUNT[measure]
         self.montecarlo[measure]['trials'] = {}
 
         for b,n in zip(self.cc.binned['d_min'],self.cc.binned['n_event']):
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index dad171c..565f694 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -405,6 +405,9 @@ def randomness_analysis(args,cps,progress_queue=None):
         diff = cps.measure - {'m2cnd','sdaa'}
         if diff:
             sys.exit(f"Invalid measure: {diff}")
+    for measure in cps.measure:
+        if max(ra.cc.binned['n_event']) < ra.MIN_COUNT[measure]:
+            sys.exit(f"Too few craters for {measure}: needs at least {ra.MIN_COUNT[measure]} in the same diameter bin")
     for measure in cps.measure:
         ra.run_montecarlo(trials, measure)
         # do each loop so as to retain data if interrupted
-- 
2.43.0


From c99a3896f363e8840c79e8fdbc3ba6c659c819db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 62/92] fix: allow blank lines within tables of text structures

---
 src/craterstats/gm/file/read_textstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index e57b5ee..a7277c9 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -30,6 +30,7 @@ def simple_value(s):
         r={t:[] for t in tag}
         for row in w[1:]:
             v=quoted_split(row)
+            if len(v)==0: continue #blank line
             if v[0]=='}': break
             for t in tag:
                 r[t].append(v.pop(0) if len(v)>0 else '')
-- 
2.43.0


From 123ab8293e3155f23081337d567db2c710baaf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 63/92] fix: recognise a keyword separated from its equals sign
 by a tab

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index a7277c9..60de7a1 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -74,7 +74,7 @@ def evaluate(s):
                 r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
                 r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
                 r"(?P<value>.*?))"
-                r"^\s*(?P<keyword2>[\w\.]*\^?) *="
+                r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
                 ,s+"\nend=")
       
     if not m: return None #no definitions to process
-- 
2.43.0


From 7e1b45659e3ae056bbfe75ce3065ab2046881dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 64/92] fix: keep commas within quoted elements of lists in
 text structures

---
 src/craterstats/gm/file/read_textstructure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index 60de7a1..0c823dd 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -8,6 +8,12 @@ from ..string.quoted_split import quoted_split
 from . import read_textfile
 
 
+def split_elements(s):
+    '''split list at commas, leaving commas within quoted elements'''
+
+    return re.findall(r'''(?:^|,)(\s*(?:"[^"]*"|'[^']*')\s*(?=,|$)|[^,]*)''', s)
+
+
 def simple_value(s):
     '''evaluate single (possibly multi-line) value'''
   
@@ -15,11 +21,11 @@ def simple_value(s):
         s=s[1:]
     
     if s.startswith('['):
-        w=s.strip('[] \n').split(',')
+        w=split_elements(s.strip('[] \n'))
         r=[strip_quotes(e.strip('\n ')) for e in w]
         
     elif s.startswith('('):   
-        w=s.strip('() \n').split(',')
+        w=split_elements(s.strip('() \n'))
         r=[strip_quotes(e.strip('\n ')) for e in w]
     
     elif s.startswith('{'):  #declare ascii table: should be field names after (otherwise, was structure)
-- 
2.43.0


From ba299540156f9f09d43f70ae2bfa5506fc2509f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 65/92] fix: do not truncate lines at an apostrophe or
 unbalanced quote when removing comments

---
 src/craterstats/gm/file/read_textfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textfile.py b/src/craterstats/gm/file/read_textfile.py
index b2bcf10..50645ed 100644
--- a/src/craterstats/gm/file/read_textfile.py
+++ b/src/craterstats/gm/file/read_textfile.py
@@ -32,7 +32,7 @@ def read_textfile(filename,n_lines=-1,ignore_blank=False,ignore_hash=False,strip
         s = [e for e in s if not e.lstrip().startswith('#')]
 
     if strip is not None:
-        c = re.compile(r'(("[^"]*?")|(\'[^\']*?\')|[^;\'"]*)*') # avoid splitting within quoted string
+        c = re.compile(r'((?<!\w)("[^"]*"|\'[^\']*\')|[^;])*') # avoid splitting within quoted string; lone quotes are ordinary text
         s = [c.match(e)[0] for e in s]
 
     if as_string:
-- 
2.43.0


From b7b8665780df07741d9e538905fad3bd5e80e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 66/92] fix: end a text block at its own closing quote

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index 0c823dd..a17809b 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -78,7 +78,7 @@ def evaluate(s):
 
     m=re.search(r"(?ms)^\s*(?P<keyword>[\w\.]*\^?)\s*=\s*"
                 r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
-                r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
+                r"\"\s*$(?P<text_value>[^{]*?)^\s*\".*?|"
                 r"(?P<value>.*?))"
                 r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
                 ,s+"\nend=")
-- 
2.43.0


From fc2cb78eb082080736f9890a12b2dc406730e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 67/92] fix: balance quotes in function definitions

---
 src/craterstats/config/functions.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/config/functions.txt b/src/craterstats/config/functions.txt
index 3ceb344..d0b9b38 100644
--- a/src/craterstats/config/functions.txt
+++ b/src/craterstats/config/functions.txt
@@ -178,7 +178,7 @@ production={
 chronology={
     name='Mars, Hartmann & Neukum (2001)'
     coefficients=[3.22E-14,6.93E00,0,4.875E-04]    
-    reference='graphically: 2001 Hartmann & Neukum - Cratering Chronology and the Evolution of Mars; in equation form: 2001 Neukum Ivanov Hartmann - Cratering Records in the Inner Solar System in Relation to the Lunar Reference System"
+    reference='graphically: 2001 Hartmann & Neukum - Cratering Chronology and the Evolution of Mars; in equation form: 2001 Neukum Ivanov Hartmann - Cratering Records in the Inner Solar System in Relation to the Lunar Reference System'
 }
 
 chronology={
@@ -402,7 +402,7 @@ chronology={
 chronology_system={
   body='Vesta'
   name="Vesta, Marchi & O'Brien (2014)"
-  cf="Vesta, O'Brien et al. (2014)""
+  cf="Vesta, O'Brien et al. (2014)"
   pf='Vesta, Marchi et al (2013) [inferred, NS]'
 }
 
-- 
2.43.0


From 3a03c44adee84a6ba4f05ef283c80557d4a30700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 68/92] fix: strip tabs around values in text structures like
 other whitespace

---
 src/craterstats/gm/file/read_textstructure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index a17809b..9552006 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -21,17 +21,17 @@ def simple_value(s):
         s=s[1:]
     
     if s.startswith('['):
-        w=split_elements(s.strip('[] \n'))
-        r=[strip_quotes(e.strip('\n ')) for e in w]
+        w=split_elements(s.strip('[] \t\n'))
+        r=[strip_quotes(e.strip('\n\t ')) for e in w]
         
     elif s.startswith('('):   
-        w=split_elements(s.strip('() \n'))
-        r=[strip_quotes(e.strip('\n ')) for e in w]
+        w=split_elements(s.strip('() \t\n'))
+        r=[strip_quotes(e.strip('\n\t ')) for e in w]
     
     elif s.startswith('{'):  #declare ascii table: should be field names after (otherwise, was structure)
         w=s.splitlines()
         tag0=w[0].split(',')      
-        tag=[e.strip('{ ') for e in tag0]      
+        tag=[e.strip('{ \t') for e in tag0]      
         
         r={t:[] for t in tag}
         for row in w[1:]:
@@ -41,7 +41,7 @@ def simple_value(s):
             for t in tag:
                 r[t].append(v.pop(0) if len(v)>0 else '')
     else: 
-        r=strip_quotes(s.strip(' \n'))
+        r=strip_quotes(s.strip(' \t\n'))
     
     return r
 
-- 
2.43.0


From 65102b4b4ade1ea2e247cfdab499dc8736b862c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 69/92] fix: treat lines of only whitespace as blank

---
 src/craterstats/gm/file/read_textfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textfile.py b/src/craterstats/gm/file/read_textfile.py
index 50645ed..7b3e76d 100644
--- a/src/craterstats/gm/file/read_textfile.py
+++ b/src/craterstats/gm/file/read_textfile.py
@@ -26,7 +26,7 @@ def read_textfile(filename,n_lines=-1,ignore_blank=False,ignore_hash=False,strip
                 s.append('')  # preserve last empty line
 
     if ignore_blank:
-        s = [e for e in s if e != '']
+        s = [e for e in s if e.strip() != '']
 
     if ignore_hash:
         s = [e for e in s if not e.lstrip().startswith('#')]
-- 
2.43.0


From 12db51cf3bca34d73f2bad185d30b460b4db606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 70/92] fix: function definition file with a single definition
 or trailing comments could not be read

---
 src/craterstats/Chronologyfn.py | 5 +++--
 src/craterstats/Epochs.py       | 5 +++--
 src/craterstats/Productionfn.py | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/craterstats/Chronologyfn.py b/src/craterstats/Chronologyfn.py
index 2b5ab9f..6e17a85 100644
--- a/src/craterstats/Chronologyfn.py
+++ b/src/craterstats/Chronologyfn.py
@@ -31,9 +31,10 @@ class Chronologyfn:
             src=source
         else:
             if '\n' in source: # multiline string is definition
-                txt = source + '\nchronology={\n name="null"\n}' # add null entry to force implied array
+                txt = source
             else: # single line string is filename
-                txt = gm.read_textfile(source, as_string=True, ignore_hash=True)
+                txt = gm.read_textfile(source, as_string=True, ignore_hash=True, strip=';')
+            txt += '\nchronology={\n name="null"\n}' # add null entry to force implied array
             src = gm.read_textstructure(txt, from_string=True)
         
         self.definition=next((e for e in src['chronology'] if e['name']==identifier),None)
diff --git a/src/craterstats/Epochs.py b/src/craterstats/Epochs.py
index d086271..f23e449 100644
--- a/src/craterstats/Epochs.py
+++ b/src/craterstats/Epochs.py
@@ -20,9 +20,10 @@ class Epochs:
             src = source
         else:
             if '\n' in source: # multiline string is definition
-                txt = source + '\nepochs={\n name="null"\n}' # add null entry to force implied array
+                txt = source
             else: # single line string is filename
-                txt = gm.read_textfile(source, as_string=True, ignore_hash=True)
+                txt = gm.read_textfile(source, as_string=True, ignore_hash=True, strip=';')
+            txt += '\nepochs={\n name="null"\n}' # add null entry to force implied array
             src = gm.read_textstructure(txt, from_string=True)
 
         definition = next((e for e in src['epochs'] if e['name'] == identifier), None)
diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index bf0bcca..b2c8120 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -20,9 +20,10 @@ class Productionfn:
             src=source
         else:
             if '\n' in source: # multiline string is definition
-                txt = source + '\n'+pf_type+'={\n name="null"\n}' # add null entry to force implied array
+                txt = source
             else: # single line string is filename
-                txt = gm.read_textfile(source, as_string=True, ignore_hash=True)
+                txt = gm.read_textfile(source, as_string=True, ignore_hash=True, strip=';')
+            txt += '\n'+pf_type+'={\n name="null"\n}' # add null entry to force implied array
             src = gm.read_textstructure(txt, from_string=True)
         
         self.definition=next((e for e in src[pf_type] if e['name']==identifier), None)
-- 
2.43.0


From 53bdb0190c152a083ca0c3cf24e919d623086d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 71/92] fix: empty user functions configuration stopped the
 program

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 91eab0b..4a0aa1a 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -70,7 +70,7 @@ class Functionslist:
         s = gm.read_textfile(cst.PATH+'config/functions.txt', ignore_hash=True, strip=';', as_string=True)
         self.config = self.user_function_config()
         if self.config:
-            uf = gm.read_textfile(self.config, ignore_hash=True)[0] if gm.file_exists(self.config) else None
+            uf = next(iter(gm.read_textfile(self.config, ignore_hash=True, ignore_blank=True)), None) if gm.file_exists(self.config) else None
             if uf:
                 try:
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
-- 
2.43.0


From d1e195feff0ed49763e1ecdbf9d12f7e38713f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 72/92] fix: setting user functions file failed outside conda
 and forgot the folder of a relative path

---
 src/craterstats/miscellaneous.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 4a0aa1a..9b9f4a0 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -88,7 +88,10 @@ class Functionslist:
 
     def set_user_functions_config(self,path):
         if path:
-            s = ['#path to functions_user.txt', path]
+            if not self.config:
+                sys.exit("User functions file can only be configured within a conda environment.")
+            os.makedirs(os.path.dirname(self.config), exist_ok=True)
+            s = ['#path to functions_user.txt', os.path.abspath(path)]
             gm.write_textfile(self.config, s)
             print(': '.join(s)[1:])
 
-- 
2.43.0


From 6da1f1acc2088f2e5331187de566d9981d98ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 73/92] fix: colours of crater number map did not match its
 colour bar unless 0 and more than 7 craters occurred

---
 src/craterstats/Craterplotset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 09d270f..b9d049e 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -957,7 +957,7 @@ class Craterplotset:
 
         if plt == 'k':
             im = np.flip(np.transpose(np.clip(kk, 0, 8)), 1)
-            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', extent=[0, 1, 0, 1])
+            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', vmin=0, vmax=8, extent=[0, 1, 0, 1])
             cbar = self.fig.colorbar(imo, self.ax_cbar, ticks=[0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5])
             cbar.ax.set_yticklabels(['0', '1', '2', '3', '4', '5', '6', '7+'])
             cbar.set_label('$k$' + diameter_text, rotation=90)
-- 
2.43.0


From 904897878bf9f331651a456df0df2d7ead113f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 74/92] fix: age-area plot not marked saturated where
 equilibrium is reached before the youngest displayed age

---
 src/craterstats/Craterplotset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index b9d049e..1672166 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -936,6 +936,8 @@ class Craterplotset:
             T_eq = self.cf.t(n1=C_ef_dmin * C[1] / C[0])
 
             match np.searchsorted([self.t_min, self.t_crossover, self.t_max], T_eq):
+                case 0: # saturated at all displayed ages
+                    x_exceed = 1.
                 case 1:
                     x_exceed = (self.xfrac_linear + (1 - self.xfrac_linear) *
                                 (np.log10(self.t_crossover) - np.log10(T_eq)) /
-- 
2.43.0


From d8cc20c5dc07d5937dde889e36b6077d43848d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 75/92] fix: age of .stat count with fractional craters could
 not be drawn

---
 src/craterstats/Craterplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 2989779..98509f8 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -251,7 +251,7 @@ class Craterplot:
                     if np.abs(self.n_event - self.n) < .001:
                         legend_label += [f'{self.n:0g}']
                     else:
-                        legend_label += [f'{self.n:.1f} (of {self.n_event:d})']
+                        legend_label += [f'{self.n:.1f} (of {self.n_event:.0f})']
                 legend_label[-1] += " craters" + (" (buffered)" if self.cratercount.buffered or self.type=='b-poisson' else "")
             if 'r' in cps.legend:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
-- 
2.43.0


From 8d43dbae7cadb775f22e407296e487c2ea5b5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 76/92] fix: age-area maps not drawn in second output format

---
 src/craterstats/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 565f694..4e83199 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -439,6 +439,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent,
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
+    result = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
@@ -452,11 +453,12 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         ra.plot_montecarlo_split(cps, measure, selection=selection)
                         savefig(f'-{measure}')
             elif cps.presentation == 'uncertainty' and age_area_result is None: # send to single fig output for gui
-                cps.calculate_time_axis_params()
-                age_area_result = cps.compute_age_area()
+                if result is None:
+                    cps.calculate_time_axis_params()
+                    result = cps.compute_age_area()
                 for plt in ('k', 'err', 'age'):
                     cps.draw()
-                    cps.age_area_plot(plt,age_area_result)
+                    cps.age_area_plot(plt,result)
                     savefig('_' + plt)
             else:
                 if not drawn:
-- 
2.43.0


From 5f65dbfe86ae5212fa564764ce9cfc753c68baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 77/92] fix: randomness analysis with fewer than 2 trials
 failed in drawing after storing infinite deviations

---
 src/craterstats/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 4e83199..e04a383 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -400,6 +400,8 @@ def randomness_analysis(args,cps,progress_queue=None):
     ra = cst.Randomnessanalysis(cs_source(args.randomness_analysis), out=out,progress_queue=progress_queue)
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
+    if trials < 2:
+        sys.exit("Invalid number of trials: needs at least 2 for a standard deviation")
     if args.measure:
         cps.measure = set(args.measure.split(','))
         diff = cps.measure - {'m2cnd','sdaa'}
-- 
2.43.0


From b6911bf34e4d197327f96c398a6555834ad88301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 78/92] fix: map grid wrong about antimeridian and poles,
 labels off map of small body, failure where map reaches beyond limb

---
 src/craterstats/Spatialcount.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index c874e4f..aa07a12 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -402,7 +402,12 @@ class Spatialcount:
 
         # do gridlines - this probably needs improving for poles
         if grid:
-            lonr, latr = ortho_proj(xr0, yr0, inverse=True)
+            # range covered by frame: any part of it beyond the limb is ignored, longitudes are continuous about the centre
+            gx, gy = np.meshgrid(np.linspace(xr0[0], xr0[1], 50), np.linspace(yr0[0], yr0[1], 50))
+            lon0, lat0 = ortho_proj(gx, gy, inverse=True)
+            visible = np.isfinite(lon0)
+            lonr = gm.range(cenlon + (lon0[visible] - cenlon + 180) % 360 - 180)
+            latr = gm.range(lat0[visible])
 
             xtickv = gm.ticks(lonr, 6)
             ytickv = gm.ticks(latr, 6)
@@ -410,17 +415,17 @@ class Spatialcount:
             ns=50
             dlat = ytickv[1]-ytickv[0]
             dlon = xtickv[1]-xtickv[0]
-            offset = (ax.transData.transform_point((0, dlat))[1] - ax.transData.transform_point((0, 0))[1])/2e4*cps.scaled_pt_size
+            offset = gm.mag(yr)*.00075*cps.scaled_pt_size
             # Plot parallels (latitude lines) and meridians (longitude lines)
             for lat in ytickv[1:-1]:
-                x_par, y_par = ortho_proj(np.linspace(xtickv[0]-dlat, xtickv[-1]+dlat, ns), np.repeat(lat,ns))  # plot meridians
+                x_par, y_par = ortho_proj(np.linspace(xtickv[0]-dlon, xtickv[-1]+dlon, ns), np.repeat(lat,ns))  # plot meridians
                 ax.plot(x_par, y_par, color=cps.grey[0], linewidth=0.3*cps.sz_ratio)
                 ax.text(np.clip(x_par[-1],xr[0],xr[1]),np.clip(y_par[-1],yr[0],yr[1])-offset,f'{lat:.7g}°',
                         ha='right',va='top',color=cps.grey[0],fontsize=cps.scaled_pt_size*.5)
             for lon in xtickv[1:-1]:
-                x_mer, y_mer = ortho_proj( np.repeat(lon,ns), np.linspace(ytickv[0]-dlon, ytickv[-1]+dlon, ns))  # plot parallels
+                x_mer, y_mer = ortho_proj( np.repeat(lon,ns), np.clip(np.linspace(ytickv[0]-dlat, ytickv[-1]+dlat, ns),-90,90))  # plot parallels
                 ax.plot(x_mer, y_mer, color=cps.grey[0], linewidth=0.3*cps.sz_ratio)
-                ax.text(np.clip(x_mer[0],xr[0],xr[1]),np.clip(y_mer[0],yr[0],yr[1]),f' {lon:.7g}°',
+                ax.text(np.clip(x_mer[0],xr[0],xr[1]),np.clip(y_mer[0],yr[0],yr[1]),f' {(lon + 180) % 360 - 180:.7g}°',
                         ha='left',va='bottom',color=cps.grey[0],fontsize=cps.scaled_pt_size*.5)
 
         ax.set_xlim(xr[0],xr[1])
-- 
2.43.0


From e2c21887c9c21152b85e4b1cf2074b4996e6cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 79/92] fix: range of .stat count with gaps extended over
 further bins, limits and binning style recovered from rounded table

---
 src/craterstats/Cratercount.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index d529f29..cbf5b1d 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -120,9 +120,17 @@ class Cratercount:
         self.binning = 'pseudo-log'
         if nc == 11: # find bin limits from given bin centres, because following bin may be missing
             d_max = np.array([float(e[7]) for e in t])**2/diam
+            for binning in self.BINNINGS[:-1]: # values are rounded: recover exact limits if bins follow a known style
+                bins = self.generate_bins(binning,[diam[0]*.999,d_max[-1]*1.001])
+                i = np.clip(np.argmin(np.abs(np.log(bins[:,None]/diam)),axis=0),0,len(bins)-2)
+                lower, upper = bins[i], bins[i+1]
+                if np.allclose(lower,diam,rtol=1e-4,atol=0) and np.allclose(upper,d_max,rtol=1.2e-3,atol=0):
+                    diam, d_max, self.binning = lower, upper, binning
+                    break
             d_next = np.append(diam[1:],np.inf)
             d_max = np.where(d_next > d_max*1.02, d_max, d_next)
-            self.binned.update({'d_mean':np.sqrt(diam*d_max),
+            self.binned.update({'d_min':diam,
+                                'd_mean':np.sqrt(diam*d_max),
                                 'bin_width':d_max-diam,
                                 'd_max':d_max})
         else:
@@ -352,10 +360,11 @@ class Cratercount:
 
         overlap = r1[0] < self.binned['d_max'][-1] and r1[1] > self.binned['d_min'][0] # don't snap onto end bins if range is beyond data
         if self.binning != 'none' and overlap:
+            bins = np.union1d(self.binned['d_min'],self.binned['d_max']) # both, because empty bins may be missing
             if snap1[0] and r1[0]>0:
-                r1[0] = self.binned['d_min'][max(np.searchsorted(self.binned['d_min'],r1[0]*(1.0000001))-1,0)]
+                r1[0] = bins[:-1][max(np.searchsorted(bins[:-1],r1[0]*(1.0000001))-1,0)]
             if snap1[1] and r1[1] <= self.binned['d_max'][-1]-1e-7:
-                r1[1] = self.binned['d_max'][np.searchsorted(self.binned['d_max'],r1[1]*(0.999999))]
+                r1[1] = bins[1:][np.searchsorted(bins[1:],r1[1]*(0.999999))]
 
         return r1
 
-- 
2.43.0


From 33ecbf8d868c93313a3a4e77beb7c79f2d9f8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 80/92] fix: legend range of binned-only counts rounded to bins
 of another style

---
 src/craterstats/Craterplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 98509f8..0628dd6 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -260,7 +260,8 @@ class Craterplot:
                     r=self.range.copy()
                     if r[0] == 0: r[0]=self.cratercount.binned['d_min'][0] # limits of data, if unconstrained
                     if np.isinf(r[1]): r[1]=self.cratercount.binned['d_max'][-1]
-                    r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
+                    binning=self.cratercount.binning if self.cratercount.prebinned else self.binning
+                    r=gm.range(self.cratercount.generate_bins(binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
                 n_d = [cps.pf.evaluate('cumulative', cps.ref_diameter, e) for e in self.a0]
-- 
2.43.0


From 8df89c35f7342f297add1650a8337170ba9a6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 81/92] fix: Hartmann plot exceeded height of print dimensions
 box

---
 src/craterstats/Craterplotset.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 1672166..c06bb4f 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -166,7 +166,6 @@ class Craterplotset:
         
         self.print_scale=(                                                      #in cm/decade
             np.clip(plot_dims[0],1,None) if len(plot_dims)==1 else
-            plot_dims[0]/self.decades[0] if self.presentation=='Hartmann' else
             min(np.clip(plot_dims*np.array([1,self.data_aspect]),1,None)/self.decades)
             )
 
-- 
2.43.0


From 29499fa5d638743852915a14f6023f4cd9c89795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 82/92] fix: plot symbols shrank each time a plot set was drawn

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index c06bb4f..1d574a4 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -185,6 +185,7 @@ class Craterplotset:
 
 # set up marker size
         f = self.decades[0] * self.print_scale / 7.5
+        self.marker_def = [e[2].copy() for e in cst.MARKERS]
         for e in self.marker_def:
             e['markersize'] *= 0.8 * f  # * self.print_scale/1.875
             e['markeredgewidth'] = .5 * f  # * self.print_scale/1.875
-- 
2.43.0


From 0fb15638d1a5bdcd7257050ebcd4767f5771f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:23 +0000
Subject: [PATCH 83/92] fix: cumulative errors of .stat counts with fractions
 ignored their event counts

---
 src/craterstats/Cratercount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index cbf5b1d..d8a61f4 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -130,6 +130,7 @@ class Cratercount:
             d_next = np.append(diam[1:],np.inf)
             d_max = np.where(d_next > d_max*1.02, d_max, d_next)
             self.binned.update({'d_min':diam,
+                                'ncum_event':np.flip(np.cumsum(np.flip(self.binned['n_event']))),
                                 'd_mean':np.sqrt(diam*d_max),
                                 'bin_width':d_max-diam,
                                 'd_max':d_max})
-- 
2.43.0


From 9d36ca871ab662deed88c48d04c7168b55f19c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 84/92] fix: sequence probability could exceed 1 by rounding,
 giving a negative complement in the table

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index d276628..caf738a 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -245,7 +245,7 @@ class Craterpdf:
         # Discretisation of cdf biases result, since calculated for one edge, especially for narrow pdfs.
         # Finding midpoint to fix:
         cdf2=(pdf2.cdf+np.roll(pdf2.cdf, 1))/2.
-        P = np.sum(self.dt * self.pdf * cdf2)
+        P = np.clip(np.sum(self.dt * self.pdf * cdf2), 0., 1.) # rounding error may exceed limits
         return P
 
     def calculate_instantaneous_probability_ratio(self, t):
-- 
2.43.0


From a8043e8ab37b74335c23e7970d6881a44993a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 85/92] fix: unclosed structure in settings text made reading
 hang

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index 9552006..710c956 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -77,7 +77,7 @@ def evaluate(s):
     #             ,s+"\nend=")
 
     m=re.search(r"(?ms)^\s*(?P<keyword>[\w\.]*\^?)\s*=\s*"
-                r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
+                r"(\{\s+(?P<struct_value>(?:\{[a-zA-Z][^}]*\}|[^{}])*?)^\s*\}.*?|"
                 r"\"\s*$(?P<text_value>[^{]*?)^\s*\".*?|"
                 r"(?P<value>.*?))"
                 r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
-- 
2.43.0


From 34973f205ce6c30696e9c1697b8a6e8476c075ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 86/92] fix: damaged randomness results crashed reading instead
 of being refused by name

---
 src/craterstats/Cratercount.py        | 9 ++++++---
 src/craterstats/Randomnessanalysis.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index d8a61f4..a706066 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -55,9 +55,12 @@ class Cratercount:
         possible_locations = (self.name + '_ra.txt',gm.filename(self.filename,'p')+self.name+'_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
-            c = gm.read_textstructure(f)
-            measures = sorted(set(c['n_sigma'].keys()) - {'bin'})
-            trials = [c[m]['n_trials'] for m in measures]
+            try:
+                c = gm.read_textstructure(f)
+                measures = sorted(set(c['n_sigma'].keys()) - {'bin'})
+                trials = [c[m]['n_trials'] for m in measures]
+            except (KeyError,TypeError,AttributeError): # incomplete, e.g. from interrupted write
+                sys.exit("Unable to read file: "+f)
             return c['n_sigma'],trials
         else:
             return None, None
diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 3837caf..5f81cf4 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -6,6 +6,7 @@ from concurrent.futures import ProcessPoolExecutor
 import math
 import multiprocessing
 import os
+import sys
 
 import astropy_healpix as hpx
 import astropy.units as u
@@ -34,7 +35,10 @@ class Randomnessanalysis(cst.Spatialcount):
         self.max_threads = os.cpu_count()-1
         self.ra_file = (out if out else self.name) + "_ra.txt"
         self.progress_queue = progress_queue
-        self.read()
+        try:
+            self.read()
+        except (KeyError,TypeError,AttributeError,ValueError): # damaged or incomplete
+            sys.exit("Unable to read file: "+self.read_file)
         binning='root-2'
         self.cc.apply_binning(binning, offset=0.)
         self.plot_reduction_factor = None
@@ -437,6 +441,7 @@ class Randomnessanalysis(cst.Spatialcount):
         # allow read from source file location, but write will still be to current dir or -o
         possible_locations = (self.ra_file, gm.filename(self.filename, 'pn1','_ra.txt'))
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
+        self.read_file = f
         if f:
             c = gm.read_textstructure(f)
             for name in self.MEASURES:
@@ -447,6 +452,8 @@ class Randomnessanalysis(cst.Spatialcount):
                     self.montecarlo[name]['trials'] = {}
                     for b in list(c[name]['trials'].keys())[1:]:
                         self.montecarlo[name]['trials'][b] = [float(e) for e in c[name]['trials'][b]]
+                        if len(self.montecarlo[name]['trials'][b]) != self.montecarlo[name]['n_trials']:
+                            raise ValueError("Trials missing")
 
     def self_pp(self,trials, measure):
         """
-- 
2.43.0


From 4b9afe1e9b828b42d0c3a633d5ba4dea1f8842a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:59 +0000
Subject: [PATCH 87/92] fix: interruption while writing randomness results lost
 the earlier ones

---
 src/craterstats/Randomnessanalysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 5f81cf4..c55b53a 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -435,7 +435,8 @@ class Randomnessanalysis(cst.Spatialcount):
                 + trials
                 + ['}'])
             s += s1
-        gm.write_textfile(self.ra_file,s)
+        gm.write_textfile(self.ra_file+'.tmp',s)
+        os.replace(self.ra_file+'.tmp',self.ra_file) # if interrupted, earlier results remain
 
     def read(self):
         # allow read from source file location, but write will still be to current dir or -o
-- 
2.43.0


From 12501f6d2e8e9a277d9364b08c037ef69b67d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:59 +0000
Subject: [PATCH 88/92] fix: damaged user functions file made built-in systems
 unusable

---
 src/craterstats/miscellaneous.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 9b9f4a0..eac05bb 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -73,8 +73,12 @@ class Functionslist:
             uf = next(iter(gm.read_textfile(self.config, ignore_hash=True, ignore_blank=True)), None) if gm.file_exists(self.config) else None
             if uf:
                 try:
+                    s_builtin = s
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
+                    entries = [e for k in ('chronology_system','chronology','production','equilibrium','epochs') for e in gm.read_textstructure(s,from_string=True)[k]]
+                    if not all(isinstance(e,dict) and isinstance(e.get('name'),str) for e in entries): raise ValueError("Incomplete definition")
                 except:
+                    s = s_builtin
                     print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
-- 
2.43.0


From 9286255252d02b6e85c59ca651110f58e467c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:57 +0000
Subject: [PATCH 89/92] fix: damaged spatial counts ended conversions and
 randomness analysis with a traceback

---
 src/craterstats/Cratercount.py  |  2 +-
 src/craterstats/Spatialcount.py | 24 ++++++++++++++----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index a706066..57bedb2 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -42,7 +42,7 @@ class Cratercount:
             elif filetype == None: pass #just create empty object
             else: bad_filetype = True
         except SystemExit:
-            sys.exit()
+            raise
         except:
             sys.exit("Unable to read file: "+filename)
         if bad_filetype: sys.exit("Unrecognised crater count file type: " + filename)
diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index aa07a12..0540822 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -8,6 +8,7 @@ import math
 import os
 import re
 import shutil
+import sys
 
 import numpy as np
 import shapefile  # pyshp
@@ -28,16 +29,19 @@ class Spatialcount:
         filetype = gm.filename(filename, 'e') if filename else None
         self.name = gm.filename(filename, "n")
 
-        if filetype == '.scc':
-            self.readSCCfile()
-        elif filetype == '.shp':
-            if not area_file:  # if area_file not specified, try to get from crater_file name
-                f = re.sub(r'CRATER', 'AREA', gm.filename(filename, 'n'))
-                area_file = gm.filename(filename, 'p1e', f)
-            self.crater_file = filename
-            self.area_file = area_file
-            self.name = re.sub(r'_?CRATER_?', '', gm.filename(filename, "n"))
-            self.readSHPfiles()
+        try:
+            if filetype == '.scc':
+                self.readSCCfile()
+            elif filetype == '.shp':
+                if not area_file:  # if area_file not specified, try to get from crater_file name
+                    f = re.sub(r'CRATER', 'AREA', gm.filename(filename, 'n'))
+                    area_file = gm.filename(filename, 'p1e', f)
+                self.crater_file = filename
+                self.area_file = area_file
+                self.name = re.sub(r'_?CRATER_?', '', gm.filename(filename, "n"))
+                self.readSHPfiles()
+        except Exception:
+            sys.exit("Unable to read file: "+filename)
 
     def summary(self):
         print(f"\nPlanetary radius: {self.planetary_radius:0g} km")
-- 
2.43.0


From ea7508b2fcdccf2e809a5e3ace5689c2ccefbb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 90/92] fix: craters with diameter equal to a bin boundary fell
 in the bin below by rounding of the boundary

---
 src/craterstats/Cratercount.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 57bedb2..5e140e7 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -273,19 +273,20 @@ class Cratercount:
         if binning == 'none': return d
         if binning == 'pseudo-log':
             a=[1.,1.1,1.2,1.3,1.4,1.5,1.7,2.,2.5,3.,3.5,4.,4.5,5.,6.,7.,8.,9.]
-            b=[10**e for e in range(int(np.floor(r10[0])),int(np.ceil(r10[1]+.1)))] # if above .9 make sure get next decade
-            bins=np.outer(b,a).flatten()
+            e=range(int(np.floor(r10[0])),int(np.ceil(r10[1]+.1))) # if above .9 make sure get next decade
+            bins=np.array([float(f'{m}e{n}') for n in e for m in a]) # avoid rounding error in product: diameter may be equal to boundary
         else:
-            bins_per_decade = {'x2': 1. / np.log10(2.),
-                               'root-2': 2./np.log10(2.),
-                               '4th root-2': 4./np.log10(2.),
-                               '10/decade': 10.,
-                               '20/decade': 20.,
-                            }[binning]
+            base,n = {'x2': (2.,1),
+                      'root-2': (2.,2),
+                      '4th root-2': (2.,4),
+                      '10/decade': (10.,10),
+                      '20/decade': (10.,20),
+                      }[binning]
+            bins_per_decade = n/np.log10(base)
 
             br = np.array(gm.range(r10*bins_per_decade + offset, outer=True)) - offset
             b0 = np.arange(br[0],br[1]+1)
-            bins = 10 ** (b0 / bins_per_decade)
+            bins = base ** (b0 / n)
 
         q=np.searchsorted(bins,10**r10)
         needed_bins = bins[np.clip(q[0]-1,0,None):q[1]+1]
-- 
2.43.0


From f2d3e10ac240aba4165a0a36219ec1d1500c37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:21 +0000
Subject: [PATCH 91/92] fix: output names containing a point lost the text
 after it, so 'map v1.1' and 'map v1.2' overwrote each other

---
 src/craterstats/cli.py           | 11 +++++------
 src/craterstats/constants.py     |  1 +
 src/craterstats/miscellaneous.py |  9 ++++++++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e04a383..dec1eea 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -201,9 +201,8 @@ def construct_cps_dict(args,c,f):
                 if os.path.isdir(v):
                     c[k] = os.path.normpath(v+'/')
                 else:
-                    c[k] = gm.filename(v, 'pn')
-                    ext = gm.filename(v, 'e').lstrip('.')
-                    if ext: c['format'].add(ext)
+                    c[k], ext = cst.split_output_name(v)
+                    if ext: c['format'].add(ext.lstrip('.'))
             elif k in 'format':
                 c[k]=set(v)
             elif k in 'measures':
@@ -396,7 +395,7 @@ def cs_source(v):
 
 
 def randomness_analysis(args,cps,progress_queue=None):
-    out = '' if cps.out=='out' or cps.out is None else re.sub(r'_ra$','',gm.filename(cps.out,'pn')) # '_ra' already present if further format/replay
+    out = '' if cps.out=='out' or cps.out is None else re.sub(r'_ra$','',cps.out) # '_ra' already present if further format/replay
     ra = cst.Randomnessanalysis(cs_source(args.randomness_analysis), out=out,progress_queue=progress_queue)
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
@@ -434,7 +433,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + os.path.basename(default_filename))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
@@ -476,7 +475,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
 
 def write_cs_file(args, out, cs_content):
     if args.out: # file will be run from own directory: output name should be relative to this
-        name = os.path.basename(out) + ('' if os.path.isdir(args.out) else gm.filename(args.out, 'e'))
+        name = os.path.basename(out) + ('' if os.path.isdir(args.out) else cst.split_output_name(args.out)[1])
         if name != args.out:
             cs_content += '\n' + shlex.quote('--out=' + name)
     gm.write_textfile(out + '.cs', cs_content)
diff --git a/src/craterstats/constants.py b/src/craterstats/constants.py
index 8e72225..06a1ea4 100644
--- a/src/craterstats/constants.py
+++ b/src/craterstats/constants.py
@@ -11,6 +11,7 @@ import craterstats as cst
 PRESENTATIONS = ('cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty', 'map', 'sdaa', 'm2cnd')
 OPLOT_TYPES = ('data', 'differential-fit', 'cumulative-fit', 'poisson', 'buffered-poisson')
 OPLOT_TYPES_SHORT = ('data', 'd-fit', 'c-fit', 'poisson', 'b-poisson')
+OUTPUT_EXTENSIONS = ('png', 'tif', 'pdf', 'svg', 'csv', 'cs', 'stat', 'scc', 'shp', 'diam')
 CRATERPLOT_KEYS = ('source', 'name', 'range', 'snap', 'type', 'error_bars', 'hide', 'colour', 'psym', 'binning', 'age_left', 'show_age',
                    'resurf', 'resurf_showall', 'isochron', 'offset_age')
 
diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index eac05bb..747c43a 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -110,6 +110,13 @@ class Functionslist:
 
 
 
+def split_output_name(out):
+    """
+    Separate output format extension, if there is one: any other text after a point belongs to the name
+    """
+    ext = gm.filename(out, 'e')
+    return (gm.filename(out, 'pn'), ext) if ext.lstrip('.') in cst.OUTPUT_EXTENSIONS else (out, '')
+
 def merge_cratercounts(args,equal_weight=False):
     '''
     Merge two or more cratercounts into a single file
@@ -128,7 +135,7 @@ def merge_cratercounts(args,equal_weight=False):
     elif os.path.isdir(out):
         out = os.path.join(out, name)
     else:
-        out = gm.filename(out, 'pn1', '.diam')
+        out = split_output_name(out)[0] + '.diam'
 
     d=[]
     frac=[]
-- 
2.43.0


From 2c5e6dbaa9d7acfd1d32cbb08193173cefcf5d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:04 +0000
Subject: [PATCH 92/92] fix: the output name 'out' was ignored by --convert and
 -ra, and results sent to a directory were all named 'out_ra'

---
 src/craterstats/Randomnessanalysis.py |  2 +-
 src/craterstats/cli.py                | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index c55b53a..850db80 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -33,7 +33,7 @@ class Randomnessanalysis(cst.Spatialcount):
         self.init_Cratercount()
         self.montecarlo = {}
         self.max_threads = os.cpu_count()-1
-        self.ra_file = (out if out else self.name) + "_ra.txt"
+        self.ra_file = (out if out and out[-1] not in '/\\' else (out or '') + self.name) + "_ra.txt"
         self.progress_queue = progress_queue
         try:
             self.read()
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index dec1eea..7d74255 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -300,9 +300,12 @@ def construct_plot_dicts(args,plot,cps_dict):
         cpl += [p]
     return cpl
 
+def output_name_given(args):
+    return bool(args.input or args.out and not os.path.isdir(args.out))
+
 def convert_format(args, cps, cs_content):
     def outfile(name, out, ext):
-        if gm.filename(out, 'n') == 'out': # no output name given: take from source
+        if not output_name_given(args): # take from source
             outfile = gm.filename(out, 'p') + name + ext
         else:
             outfile = out + ext
@@ -395,7 +398,10 @@ def cs_source(v):
 
 
 def randomness_analysis(args,cps,progress_queue=None):
-    out = '' if cps.out=='out' or cps.out is None else re.sub(r'_ra$','',cps.out) # '_ra' already present if further format/replay
+    if output_name_given(args):
+        out = re.sub(r'_ra$','',cps.out) # '_ra' already present if further format/replay
+    else:
+        out = gm.filename(cps.out,'p') # directory only: name taken from source
     ra = cst.Randomnessanalysis(cs_source(args.randomness_analysis), out=out,progress_queue=progress_queue)
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
-- 
2.43.0

