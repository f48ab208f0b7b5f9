From 77bc2c249312ae77c6d55311433a5891f20cdd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 01/55] fix: film pixels reachable by neighbouring tiles are no
 longer written without the lock

---
 src/cameras/image_film.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 821fb54..de7f070 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -62,13 +62,19 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     update_x1 = min(update_x1, width);
     update_y1 = min(update_y1, height);
 
+    //samples of the neighbouring areas can reach every pixel closer than the
+    //filter range to the border of this area, so those pixels are not secure
+    const float secure_x0 = secure_area->startx+filter->range_x;
+    const float secure_y0 = secure_area->starty+filter->range_y;
+    const float secure_x1 = secure_area->endx-filter->range_x-1.f;
+    const float secure_y1 = secure_area->endy-filter->range_y-1.f;
+
     //foreach affected pixel
     for(int y = update_y0; y<update_y1; y++)
         for(int x = update_x0; x<update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
-            if(x<secure_area->startx || x>secure_area->endx ||
-               y<secure_area->starty || y>secure_area->endy)
+            if(x<secure_x0 || x>secure_x1 || y<secure_y0 || y>secure_y1)
             {
                 //critical section, other threads could interfere. deferred add
                 TodoPixel pixel_toadd;
-- 
2.43.0


From 96a759f075d5965965d65076cbbe81f22e5f5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 02/55] fix: progress bar reads the job queue under its lock
 and stops through an atomic flag

---
 src/renderer.cpp | 23 +++++++++++++----------
 src/renderer.hpp |  7 +++++--
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index b683157..5bb612f 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -9,8 +9,8 @@ static void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
                      Scene* scene, LightIntegrator* mc_solver);
 
 
-static void progressBar(std::stack<Renderer_task>* jobs, unsigned long ts,
-                        bool& alive);
+static void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                        unsigned long ts, std::atomic<bool>& alive);
 
 Renderer::Renderer(int width, int height, int spp, const char* out,
                    int thread_number):film(width, height, out)
@@ -111,7 +111,7 @@ int Renderer::render(Scene* s)
         }
     }
     steady_clock::time_point a = steady_clock::now();
-    RendererProgressBar progress_bar(&jobs);
+    RendererProgressBar progress_bar(&jobs, &jobs_mtx);
     //create threads
     for(int i = 0; i<Renderer::numthreads; i++)
     {
@@ -244,12 +244,13 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
     film->add_pixel_forced(&ex);
 }
 
-RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs)
+RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs,
+                                         std::mutex* lock)
 {
     RendererProgressBar::jobs = jobs;
     RendererProgressBar::alive = true;
-    RendererProgressBar::listener = std::thread(progressBar, jobs, jobs->size(),
-                                                std::ref(alive));
+    RendererProgressBar::listener = std::thread(progressBar, jobs, lock,
+                                                jobs->size(), std::ref(alive));
 }
 
 RendererProgressBar::~RendererProgressBar()
@@ -269,8 +270,8 @@ void RendererProgressBar::kill()
     Console.progress_bar_done();
 }
 
-void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
-                 bool& alive)
+void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                 unsigned long jobs_no, std::atomic<bool>& alive)
 {
     unsigned long remaining;
     float done;
@@ -279,8 +280,10 @@ void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
     time_t eta;
     while(alive)
     {
-        remaining = jobs->size(); //I don't care about dirty reads, it's an
-        current_time = time(NULL); //eta, I cannot block n threads for an eta
+        lock->lock(); //held just to read the size, once per update
+        remaining = jobs->size();
+        lock->unlock();
+        current_time = time(NULL);
         done = (float)(jobs_no-remaining)/(float)jobs_no;
         eta = (time_t)((float)(current_time-start_time)/(jobs_no-remaining)*
                        remaining);
diff --git a/src/renderer.hpp b/src/renderer.hpp
index 75b7671..859ad10 100644
--- a/src/renderer.hpp
+++ b/src/renderer.hpp
@@ -26,6 +26,8 @@
 #include "samplers/sampler_stratified.hpp"
 #include "integrators/light_integrator.hpp"
 #include "settings.h"
+#include <atomic> //std::atomic
+#include <mutex> //std::mutex
 #include <thread> //std::thread
 #include <stack> //std::stack
 #include <chrono> //std::this_thread::sleep_for, platform independent
@@ -60,8 +62,9 @@ public:
     /** \brief Default constructor
      *
      * \param[in] jobs The job queue
+     * \param[in] lock The mutex protecting the job queue
      */
-    RendererProgressBar(std::stack<Renderer_task>* jobs);
+    RendererProgressBar(std::stack<Renderer_task>* jobs, std::mutex* lock);
 
     ///Default destructor
     ~RendererProgressBar();
@@ -78,7 +81,7 @@ private:
     std::thread listener;
 
     //used to terminate the thread
-    bool alive;
+    std::atomic<bool> alive;
 };
 
 /**
-- 
2.43.0


From 506b5b711a81d8e4a5d64f98cfadb3b1f2df4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 03/55] fix: a sample contributes to every pixel within the
 filter range, not to all but the last row and column

---
 src/cameras/image_film.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index de7f070..348d8c7 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -55,8 +55,8 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     float centre_y = sample->posy-0.5f;
     int update_x0 = (int)ceilf(centre_x-filter->range_x);
     int update_y0 = (int)ceilf(centre_y-filter->range_y);
-    int update_x1 = (int)floorf(centre_x+filter->range_x);
-    int update_y1 = (int)floorf(centre_y+filter->range_y);
+    int update_x1 = (int)floorf(centre_x+filter->range_x)+1; //past the end
+    int update_y1 = (int)floorf(centre_y+filter->range_y)+1; //past the end
     update_x0 = max(update_x0, 0);
     update_y0 = max(update_y0, 0);
     update_x1 = min(update_x1, width);
-- 
2.43.0


From d9ae41daafbb45ef829ea7871cf731c2721d0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 04/55] fix: bmp, tga and ppm writers report failed writes
 instead of success

---
 src/utility/imageio/bmp.c | 16 ++++++++--------
 src/utility/imageio/ppm.c |  6 +++---
 src/utility/imageio/tga.c | 14 +++++++-------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 728896b..8fab9c6 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -88,28 +88,28 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
         char padding;
         int x;
         int y;
-        int data_idx = 0;
         uint8_t* row;
         create_bmp_header(width, height, &header, &dib);
         bpp = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
         padding = (width*bpp)%4;
         row = (uint8_t*)malloc(sizeof(uint8_t)*(bpp*width+padding));
-        fwrite(&header, sizeof(struct bmp_header), 1, fout);
-        fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout);
-        for(y = 0; y<height; y++)
+        retval = row != NULL &&
+                 fwrite(&header, sizeof(struct bmp_header), 1, fout) == 1 &&
+                 fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout) == 1;
+        for(y = 0; y<height && retval; y++)
         {
             for(x = 0; x<width; x++)
             {
                 row[x*3+0] = (data[y*width+x] & 0xFF000000) >> 24; /* Blue  */
                 row[x*3+1] = (data[y*width+x] & 0x00FF0000) >> 16; /* Green */
                 row[x*3+2] = (data[y*width+x] & 0x0000FF00) >> 8; /* Red   */
-                data_idx += 3;
             }
-            fwrite(row, sizeof(uint8_t), bpp*width+padding, fout);
+            retval = fwrite(row, sizeof(uint8_t), bpp*width+padding, fout) ==
+                     (size_t)(bpp*width+padding);
         }
         free(row);
-        fclose(fout);
-        retval = data_idx == width*height*bpp;
+        if(fclose(fout) != 0) /* the buffered part could not be written */
+            retval = 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index b6595b0..14fa9ce 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -13,7 +13,7 @@ char ppm_write(const char* name, int width, int height, const uint32_t* array)
     if(fout != NULL)
     {
         int32_t written = 0; //ssize_t on unix is SSIZE_T on windows. This is a joke.
-        fprintf(fout, "P6 %d %d 255 ", width, height);
+        const int header = fprintf(fout, "P6 %d %d 255 ", width, height);
         for(i = 0; i<width*height; i++)
         {
             /* convert BGRA to RGB */
@@ -23,8 +23,8 @@ char ppm_write(const char* name, int width, int height, const uint32_t* array)
             pixel[2] = (array[i] & 0xFF000000) >> 24;
             written += fwrite(&pixel, sizeof(uint8_t), 3, fout);
         }
-        fclose(fout);
-        retval = written == width*height*3;
+        /* fclose fails if the buffered part could not be written */
+        retval = fclose(fout) == 0 && header>0 && written == width*height*3;
     }
     return retval;
 }
diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 182962c..e5b6162 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -81,7 +81,6 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
         struct tga_header header;
         int x;
         int y;
-        int data_idx = 0;
         uint8_t* row;
         memset(&header, 0, sizeof(struct tga_header));
         header.width = ENDIANNESS_LITTLE16((uint16_t)width);
@@ -90,8 +89,9 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
         header.bpp = BPP << 3;
         header.img_descriptor = TGA_UPPER_ORIGIN;
         row = (uint8_t*)malloc(sizeof(uint8_t)*(width*BPP));
-        fwrite(&header, sizeof(struct tga_header), 1, fout);
-        for(y = 0; y<height; y++)
+        retval = row != NULL &&
+                 fwrite(&header, sizeof(struct tga_header), 1, fout) == 1;
+        for(y = 0; y<height && retval; y++)
         {
             for(x = 0; x<width; x++)
             {
@@ -99,13 +99,13 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
                 row[x*BPP+0] = (data[y*width+x] & 0xFF000000) >> 24; /* Blue  */
                 row[x*BPP+1] = (data[y*width+x] & 0x00FF0000) >> 16; /* Green */
                 row[x*BPP+2] = (data[y*width+x] & 0x0000FF00) >> 8; /* Red   */
-                data_idx += BPP;
             }
-            fwrite(row, sizeof(uint8_t), BPP*width, fout);
+            retval = fwrite(row, sizeof(uint8_t), BPP*width, fout) ==
+                     (size_t)(BPP*width);
         }
-        fclose(fout);
+        if(fclose(fout) != 0) /* the buffered part could not be written */
+            retval = 0;
         free(row);
-        retval = data_idx == width*height*BPP;
     }
     return retval;
 }
-- 
2.43.0


From 01d5b52c9103c30da42a98a67c2c0a919aaafd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 05/55] fix: png writer reports errors instead of aborting or
 claiming success

---
 src/utility/imageio/png.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index 51432ab..bc2054c 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -28,20 +28,25 @@ char png_write(const char* name, int width, int height, const uint32_t* data)
         }
         png_img = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                           NULL);
-        png_info = png_create_info_struct(png_img);
-        png_init_io(png_img, fout);
-        png_set_IHDR(png_img, png_info, width, height,
-                     8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
-                     PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
-        png_write_info(png_img, png_info);
-        png_write_image(png_img, rows);
-        png_write_end(png_img, NULL);
+        png_info = png_img != NULL?png_create_info_struct(png_img):NULL;
+        /* libpng jumps back here, with a non-zero value, upon errors */
+        if(png_info != NULL && setjmp(png_jmpbuf(png_img)) == 0)
+        {
+            png_init_io(png_img, fout);
+            png_set_IHDR(png_img, png_info, width, height,
+                         8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
+                         PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
+            png_write_info(png_img, png_info);
+            png_write_image(png_img, rows);
+            png_write_end(png_img, NULL);
+            retval = 1;
+        }
         for(y = 0; y<height; y++)
             free(rows[y]);
         free(rows);
         png_destroy_write_struct(&png_img, &png_info);
-        fclose(fout);
-        retval = 1;
+        if(fclose(fout) != 0) /* the buffered part could not be written */
+            retval = 0;
     }
     return retval;
 }
-- 
2.43.0


From fe11567c1241fb2e248652ca8e011b09aa7868d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 06/55] fix: jpg reader and writer survive and report libjpeg
 errors, also for grayscale files

---
 src/utility/imageio/jpg.c | 170 ++++++++++++++++++++++----------------
 src/utility/imageio/jpg.h |   1 +
 2 files changed, 101 insertions(+), 70 deletions(-)

diff --git a/src/utility/imageio/jpg.c b/src/utility/imageio/jpg.c
index 5031ba6..fe70e81 100644
--- a/src/utility/imageio/jpg.c
+++ b/src/utility/imageio/jpg.c
@@ -5,10 +5,23 @@
 
 #define UNUSED(x) (void)(x)
 
+/* libjpeg requires that the error handler never returns */
+struct jpg_error_mgr
+{
+    struct jpeg_error_mgr base;
+    jmp_buf on_error;
+};
+
 static void jpg_error(j_common_ptr jpg_img)
 {
-    UNUSED(jpg_img);
     /* avoid terminating program if jpg error is encountered */
+    longjmp(((struct jpg_error_mgr*)jpg_img->err)->on_error, 1);
+}
+
+static void jpg_message(j_common_ptr jpg_img)
+{
+    UNUSED(jpg_img);
+    /* avoid printing messages */
 }
 
 char jpg_write(const char* name, int width, int height, const uint32_t* data)
@@ -18,7 +31,7 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
     if(fout != NULL)
     {
         struct jpeg_compress_struct jpg_img;
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         int i;
         JSAMPROW current_row;
         /*not the best thing, but the jpeg functions wants a modifiable array*/
@@ -32,28 +45,32 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
             data_nc[i*3+1] = (data[i] & 0x00FF0000) >> 16;
             data_nc[i*3+2] = (data[i] & 0xFF000000) >> 24;
         }
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_compress(&jpg_img);
-        jpeg_stdio_dest(&jpg_img, fout);
-        jpg_img.image_width = width;
-        jpg_img.image_height = height;
-        jpg_img.input_components = 3;
-        jpg_img.in_color_space = JCS_RGB;
-        jpeg_set_defaults(&jpg_img);
-        jpeg_set_quality(&jpg_img, 100, 1);
-        jpeg_start_compress(&jpg_img, 1);
-        while(jpg_img.next_scanline<jpg_img.image_height)
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.output_message = jpg_message;
+        if(setjmp(jpg_err.on_error) == 0)
         {
-            current_row = data_nc+jpg_img.next_scanline*3*width;
-            jpeg_write_scanlines(&jpg_img, &current_row, 1);
+            jpeg_create_compress(&jpg_img);
+            jpeg_stdio_dest(&jpg_img, fout);
+            jpg_img.image_width = width;
+            jpg_img.image_height = height;
+            jpg_img.input_components = 3;
+            jpg_img.in_color_space = JCS_RGB;
+            jpeg_set_defaults(&jpg_img);
+            jpeg_set_quality(&jpg_img, 100, 1);
+            jpeg_start_compress(&jpg_img, 1);
+            while(jpg_img.next_scanline<jpg_img.image_height)
+            {
+                current_row = data_nc+jpg_img.next_scanline*3*width;
+                jpeg_write_scanlines(&jpg_img, &current_row, 1);
+            }
+            jpeg_finish_compress(&jpg_img);
+            retval = 1;
         }
-        retval = 1;
-        jpeg_finish_compress(&jpg_img);
-        fclose(fout);
         free(data_nc);
         jpeg_destroy_compress(&jpg_img);
+        if(fclose(fout) != 0) /* the buffered part could not be written */
+            retval = 0;
     }
     return retval;
 }
@@ -66,19 +83,21 @@ char jpg_valid(const char* name)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        /* check if the header is correct. The actual error handling does
-         * nothing, as the detection is performed by the read_header retval and
-         * distinguishing between errors is not required
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.output_message = jpg_message;
+        /* check if the header is correct. Distinguishing between errors is not
+         * required, so any error skips the read_header retval
          */
-        retval = jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK;
+        if(setjmp(jpg_err.on_error) == 0)
+        {
+            jpeg_create_decompress(&jpg_img);
+            jpeg_stdio_src(&jpg_img, fin);
+            retval = jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK;
+        }
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
@@ -93,24 +112,27 @@ char jpg_dimensions(const char* name, int* width, int* height)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.output_message = jpg_message;
+        if(setjmp(jpg_err.on_error) == 0)
         {
-            /* actual data written in the header. To get the real value I should
-             * call the jpeg_decompress and read output_width and output_height.
-             * However I don't give a shit if someboy tries to cheat with the
-             * header values, their fault, not mine.
-             */
-            *width = jpg_img.image_width;
-            *height = jpg_img.image_height;
-            retval = 1;
+            jpeg_create_decompress(&jpg_img);
+            jpeg_stdio_src(&jpg_img, fin);
+            if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
+            {
+                /* actual data written in the header. To get the real value I should
+                 * call the jpeg_decompress and read output_width and output_height.
+                 * However I don't give a shit if someboy tries to cheat with the
+                 * header values, their fault, not mine.
+                 */
+                *width = jpg_img.image_width;
+                *height = jpg_img.image_height;
+                retval = 1;
+            }
         }
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
@@ -128,41 +150,49 @@ char jpg_read(const char* name, uint32_t* values)
         int row_len;
         unsigned int x;
         unsigned int y;
-        uint8_t* row;
+        char ok;
+        JSAMPARRAY row;
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.output_message = jpg_message;
+        if(setjmp(jpg_err.on_error) == 0)
         {
-            jpeg_start_decompress(&jpg_img);
-            row_len = jpg_img.output_width*jpg_img.output_components;
-            row = (uint8_t*)malloc(sizeof(uint8_t)*row_len);
-            retval = 1;
-            while(jpg_img.output_scanline<jpg_img.output_height)
+            jpeg_create_decompress(&jpg_img);
+            jpeg_stdio_src(&jpg_img, fin);
+            if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
             {
-                y = jpg_img.output_scanline;
-                retval &= jpeg_read_scanlines(&jpg_img, &row, 1)>0;
-                x = 0;
-                while(x<jpg_img.output_width)
+                /* three components for each pixel, whatever the file stores */
+                jpg_img.out_color_space = JCS_RGB;
+                jpeg_start_decompress(&jpg_img);
+                row_len = jpg_img.output_width*jpg_img.output_components;
+                /* released by libjpeg, also upon errors */
+                row = (*jpg_img.mem->alloc_sarray)((j_common_ptr)&jpg_img,
+                                                   JPOOL_IMAGE, row_len, 1);
+                ok = 1;
+                while(jpg_img.output_scanline<jpg_img.output_height)
                 {
-                    int i = y*jpg_img.output_width+x;
-                    values[i] = 0x000000FF;
-                    values[i] |= row[x*3+0] << 8;
-                    values[i] |= row[x*3+1] << 16;
-                    values[i] |= row[x*3+2] << 24;
-                    x++;
+                    y = jpg_img.output_scanline;
+                    ok &= jpeg_read_scanlines(&jpg_img, row, 1)>0;
+                    x = 0;
+                    while(x<jpg_img.output_width)
+                    {
+                        int i = y*jpg_img.output_width+x;
+                        values[i] = 0x000000FF;
+                        values[i] |= row[0][x*3+0] << 8;
+                        values[i] |= row[0][x*3+1] << 16;
+                        values[i] |= (uint32_t)row[0][x*3+2] << 24;
+                        x++;
+                    }
                 }
+                jpeg_finish_decompress(&jpg_img);
+                retval = ok;
             }
-            free(row);
         }
-        jpeg_finish_decompress(&jpg_img);
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
diff --git a/src/utility/imageio/jpg.h b/src/utility/imageio/jpg.h
index 2035957..88f4f8b 100644
--- a/src/utility/imageio/jpg.h
+++ b/src/utility/imageio/jpg.h
@@ -20,6 +20,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <memory.h>
+#include <setjmp.h>
 #include <jpeglib.h>
 
 /**
-- 
2.43.0


From 0b3c8c83b9bf243d1ae1493d03056825951489b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 07/55] fix: png readers check the header and survive libpng
 errors

---
 src/utility/imageio/png.c | 119 ++++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 56 deletions(-)

diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index bc2054c..5413d4d 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -58,8 +58,8 @@ char png_valid(const char* name)
     if(fin != NULL)
     {
         uint8_t header[8];
-        fread(header, 1, 8, fin);
-        retval = png_sig_cmp(header, 0, 8) == 0;
+        retval = fread(header, 1, 8, fin) == 8 &&
+                 png_sig_cmp(header, 0, 8) == 0;
         fclose(fin);
     }
     return retval;
@@ -74,19 +74,22 @@ char png_dimensions(const char* name, int* width, int* height)
         uint8_t header[8];
         png_structp png_img;
         png_infop png_info;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 1, 8, fin) == 8 && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
-            png_info = png_create_info_struct(png_img);
-            png_init_io(png_img, fin);
-            png_set_sig_bytes(png_img, 8);
-            png_read_info(png_img, png_info);
-            *width = png_get_image_width(png_img, png_info);
-            *height = png_get_image_height(png_img, png_info);
+            png_info = png_img != NULL?png_create_info_struct(png_img):NULL;
+            /* libpng jumps back here, with a non-zero value, upon errors */
+            if(png_info != NULL && setjmp(png_jmpbuf(png_img)) == 0)
+            {
+                png_init_io(png_img, fin);
+                png_set_sig_bytes(png_img, 8);
+                png_read_info(png_img, png_info);
+                *width = png_get_image_width(png_img, png_info);
+                *height = png_get_image_height(png_img, png_info);
+                retval = 1;
+            }
             png_destroy_read_struct(&png_img, &png_info, NULL);
-            retval = 1;
         }
         fclose(fin);
     }
@@ -102,66 +105,70 @@ char png_read(const char* name, uint32_t* values)
         int y;
         int x;
         uint8_t header[8];
-        png_byte** rows;
+        png_byte** volatile rows = NULL; /* both survive a jump */
         png_structp png_img;
         png_infop png_info;
         int width;
-        int height;
+        volatile int height = 0;
         int color_type;
         int bpp;
         int index_rgb;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 1, 8, fin) == 8 && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
-            png_info = png_create_info_struct(png_img);
-            png_init_io(png_img, fin);
-            png_set_sig_bytes(png_img, 8);
-            png_read_info(png_img, png_info);
-
-            width = png_get_image_width(png_img, png_info);
-            height = png_get_image_height(png_img, png_info);
-            color_type = png_get_color_type(png_img, png_info);
-            bpp = png_get_bit_depth(png_img, png_info);
-            /* -------- Convert every possible PNG to RGBA format ----------- */
-            if(bpp == 16)
-                png_set_strip_16(png_img);
-            if(color_type == PNG_COLOR_TYPE_PALETTE)
-                png_set_palette_to_rgb(png_img);
-            if(color_type == PNG_COLOR_TYPE_GRAY && bpp<8)
-                png_set_expand_gray_1_2_4_to_8(png_img);
-            if(png_get_valid(png_img, png_info, PNG_INFO_tRNS))
-                png_set_tRNS_to_alpha(png_img);
-            /* write 0xFF as alpha */
-            if(color_type == PNG_COLOR_TYPE_RGB ||
-               color_type == PNG_COLOR_TYPE_GRAY ||
-               color_type == PNG_COLOR_TYPE_PALETTE)
-                png_set_filler(png_img, 0xFF, PNG_FILLER_AFTER);
-            if(color_type == PNG_COLOR_TYPE_GRAY ||
-               color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
-                png_set_gray_to_rgb(png_img);
-            /* -------------------------------------------------------------- */
-            png_read_update_info(png_img, png_info);
-            rows = (png_byte**)malloc(sizeof(png_byte*)*height);
-            for(y = 0; y<height; y++)
-                rows[y] = (png_byte*)malloc(sizeof(png_byte)*width*4);
-            png_read_image(png_img, rows);
-            index_rgb = 0;
-            for(y = 0; y<height; y++)
+            png_info = png_img != NULL?png_create_info_struct(png_img):NULL;
+            /* libpng jumps back here, with a non-zero value, upon errors */
+            if(png_info != NULL && setjmp(png_jmpbuf(png_img)) == 0)
             {
-                for(x = 0; x<width; x++)
+                png_init_io(png_img, fin);
+                png_set_sig_bytes(png_img, 8);
+                png_read_info(png_img, png_info);
+
+                width = png_get_image_width(png_img, png_info);
+                height = png_get_image_height(png_img, png_info);
+                color_type = png_get_color_type(png_img, png_info);
+                bpp = png_get_bit_depth(png_img, png_info);
+                /* -------- Convert every possible PNG to RGBA format ----------- */
+                if(bpp == 16)
+                    png_set_strip_16(png_img);
+                if(color_type == PNG_COLOR_TYPE_PALETTE)
+                    png_set_palette_to_rgb(png_img);
+                if(color_type == PNG_COLOR_TYPE_GRAY && bpp<8)
+                    png_set_expand_gray_1_2_4_to_8(png_img);
+                if(png_get_valid(png_img, png_info, PNG_INFO_tRNS))
+                    png_set_tRNS_to_alpha(png_img);
+                /* write 0xFF as alpha */
+                if(color_type == PNG_COLOR_TYPE_RGB ||
+                   color_type == PNG_COLOR_TYPE_GRAY ||
+                   color_type == PNG_COLOR_TYPE_PALETTE)
+                    png_set_filler(png_img, 0xFF, PNG_FILLER_AFTER);
+                if(color_type == PNG_COLOR_TYPE_GRAY ||
+                   color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
+                    png_set_gray_to_rgb(png_img);
+                /* -------------------------------------------------------------- */
+                png_read_update_info(png_img, png_info);
+                rows = (png_byte**)calloc(height, sizeof(png_byte*));
+                for(y = 0; y<height; y++)
+                    rows[y] = (png_byte*)malloc(sizeof(png_byte)*width*4);
+                png_read_image(png_img, rows);
+                index_rgb = 0;
+                for(y = 0; y<height; y++)
                 {
-                    values[index_rgb] = rows[y][x*4+3];
-                    values[index_rgb] |= rows[y][x*4+2] << 24;
-                    values[index_rgb] |= rows[y][x*4+1] << 16;
-                    values[index_rgb++] |= rows[y][x*4+0] << 8;
+                    for(x = 0; x<width; x++)
+                    {
+                        values[index_rgb] = rows[y][x*4+3];
+                        values[index_rgb] |= rows[y][x*4+2] << 24;
+                        values[index_rgb] |= rows[y][x*4+1] << 16;
+                        values[index_rgb++] |= rows[y][x*4+0] << 8;
+                    }
                 }
-                free(rows[y]);
+                retval = index_rgb == width*height;
             }
+            for(y = 0; rows != NULL && y<height; y++)
+                free(rows[y]);
             free(rows);
             png_destroy_read_struct(&png_img, &png_info, NULL);
-            retval = index_rgb == width*height;
         }
         fclose(fin);
     }
-- 
2.43.0


From 347d5623fe5a859ecc48ef898324afd2a5336df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 08/55] fix: ppm readers fail on missing values instead of
 using uninitialised ones

---
 src/utility/imageio/ppm.c | 45 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index 14fa9ce..c97e774 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -36,12 +36,9 @@ char ppm_dimensions(const char* name, int* width, int* height)
     if(fin != NULL)
     {
         char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
-        if(magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6'))
-        {
-            fscanf(fin, "%d%d", width, height);
-            retval = 1;
-        }
+        if(fscanf(fin, "%c%c", magic+0, magic+1) == 2 &&
+           magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6'))
+            retval = fscanf(fin, "%d%d", width, height) == 2;
         fclose(fin);
     }
     return retval;
@@ -54,9 +51,9 @@ char ppm_valid(const char* name)
     if(fin != NULL)
     {
         char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        retval = fscanf(fin, "%c%c", magic+0, magic+1) == 2 &&
+                 magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6');
         fclose(fin);
-        retval = magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6');
     }
     return retval;
 }
@@ -71,40 +68,42 @@ char ppm_read(const char* name, uint32_t* values)
         uint8_t red;
         uint8_t green;
         uint8_t blue;
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        unsigned int width;
+        unsigned int height;
+        uint16_t depth_short;
         /* check magic number to determine if ASCII or binary */
-        if(magic[0] == 'P')
+        if(fscanf(fin, "%c%c", magic+0, magic+1) == 2 && magic[0] == 'P' &&
+           fscanf(fin, "%u%u%hu", &width, &height, &depth_short) == 3 &&
+           depth_short>0)
         {
-            unsigned int width;
-            unsigned int height;
             float depth;
-            uint16_t depth_short;
-            fscanf(fin, "%u%u%hu", &width, &height, &depth_short);
             /* not my fucking problem if the depth is > 65536, the specification
              states that the aforementioned value is the max */
             depth = (float)depth_short;
             if(magic[1] == '3') /* ASCII */
             {
                 char val[6];
-                uint16_t num_val;
+                uint16_t num_val = 0;
                 unsigned int i;
-                for(i = 0; i<width*height; i++)
+                retval = 1;
+                for(i = 0; i<width*height && retval; i++)
                 {
                     values[i] = 0x000000FF;
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    retval = fscanf(fin, "%5s", val) == 1 &&
+                             sscanf(val, "%hu", &num_val) == 1;
                     red = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    if(retval)
+                        retval = fscanf(fin, "%5s", val) == 1 &&
+                                 sscanf(val, "%hu", &num_val) == 1;
                     green = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    if(retval)
+                        retval = fscanf(fin, "%5s", val) == 1 &&
+                                 sscanf(val, "%hu", &num_val) == 1;
                     blue = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
                     values[i] |= red << 8;
                     values[i] |= green << 16;
                     values[i] |= blue << 24;
                 }
-                retval = 1;
             }
             else if(magic[1] == '6') /* Binary */
             {
-- 
2.43.0


From c066338fb6904a6ff28c5ce35a58c52f26680037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 09/55] fix: bmp reader accepts every byte order consistently
 and rejects empty images

---
 src/utility/imageio/bmp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 8fab9c6..2cb04de 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -26,7 +26,8 @@ char bmp_valid(const char* name)
         {
             res = fread(&dib, sizeof(struct bmp_dib_v3), 1, fin);
             retval &= res && dib.compression == 0 && dib.palette_no == 0 &&
-                      (dib.bpp == 24 || dib.bpp == 32);
+                      (ENDIANNESS_LITTLE16(dib.bpp) == 24 ||
+                       ENDIANNESS_LITTLE16(dib.bpp) == 32);
         }
         fclose(fin);
     }
@@ -130,7 +131,7 @@ char bmp_read(const char* name, uint32_t* values)
         /* not v3 or other fancy features not supported */
         if(res && dib.compression == 0 && dib.palette_no == 0 &&
            (ENDIANNESS_LITTLE16(dib.bpp) == 24 ||
-            ENDIANNESS_LITTLE16(dib.bpp) == 32))
+            ENDIANNESS_LITTLE16(dib.bpp) == 32) && dib.height != 0)
         {
             int height = ENDIANNESS_LITTLE32(dib.height);
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
@@ -156,7 +157,7 @@ char bmp_read(const char* name, uint32_t* values)
                 y = 0;
             }
             fseek(fin, ENDIANNESS_LITTLE32(header.data_offset), SEEK_SET);
-            while(y != ymax && fread(row, BPP*WIDTH+PADDING, 1, fin))
+            while(row != NULL && y != ymax && fread(row, BPP*WIDTH+PADDING, 1, fin))
             {
                 x = 0;
                 while(x<WIDTH)
-- 
2.43.0


From d67e13d76a9b7380873f0d9fcc643e64974edf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 10/55] fix: bmp rows are padded to a multiple of four bytes

---
 src/utility/imageio/bmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 2cb04de..c39e520 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -92,8 +92,8 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
         uint8_t* row;
         create_bmp_header(width, height, &header, &dib);
         bpp = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
-        padding = (width*bpp)%4;
-        row = (uint8_t*)malloc(sizeof(uint8_t)*(bpp*width+padding));
+        padding = (4-(width*bpp)%4)%4; /* rows are multiple of 4 bytes */
+        row = (uint8_t*)calloc(bpp*width+padding, sizeof(uint8_t));
         retval = row != NULL &&
                  fwrite(&header, sizeof(struct bmp_header), 1, fout) == 1 &&
                  fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout) == 1;
@@ -137,7 +137,7 @@ char bmp_read(const char* name, uint32_t* values)
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
             const int BPP = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
             const char HAS_ALPHA = BPP == 4;
-            const char PADDING = (WIDTH*BPP)%4;
+            const char PADDING = (4-(WIDTH*BPP)%4)%4;
             int y;
             int ymax;
             int x;
-- 
2.43.0


From 4711a50854ef9718cdd335af6ab78b7a5c8a8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 11/55] fix: tga reader stops a run-length packet at the last
 pixel

---
 src/utility/imageio/tga.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index e5b6162..4bac249 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -193,7 +193,7 @@ char tga_read(const char* name, uint32_t* values)
                     if(pixel[0] & 0x80) /* RLE */
                     {
                         int rle_len = 1+(pixel[0] & 0x7F);
-                        for(rle = 0; rle<rle_len; rle++)
+                        for(rle = 0; rle<rle_len && x<WIDTH; rle++)
                         {
                             if(BPP == 3) /* 24 bit no RLE */
                             {
-- 
2.43.0


From 64e6549e67e42e23342ef1f52af07828e6ee8276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 12/55] fix: tga reader honours the length of raw packets

---
 src/utility/imageio/tga.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 4bac249..3111f77 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -138,6 +138,7 @@ char tga_read(const char* name, uint32_t* values)
                 ENDIANNESS_LITTLE16(header.colourmap_length);
         int written = 0;
         int rle;
+        int raw = 0; /* pixels still to be read in the raw packet */
         if(header.img_descriptor & TGA_UPPER_ORIGIN) /* top-down */
         {
             increment = 1;
@@ -155,7 +156,9 @@ char tga_read(const char* name, uint32_t* values)
         {
             i = y*WIDTH;
             x = 0;
-            while(x<WIDTH && fread(&pixel, BPP+COMPRESSED, 1, fin))
+            /* only the first pixel of a packet comes after a header */
+            while(x<WIDTH && fread(pixel+(raw>0),
+                                   BPP+(COMPRESSED && raw == 0), 1, fin))
             {
                 if(!COMPRESSED)
                 {
@@ -240,6 +243,7 @@ char tga_read(const char* name, uint32_t* values)
                     }
                     else /* normal */
                     {
+                        raw = raw>0?raw-1:pixel[0];
                         if(BPP == 3) /* 24 bit no RLE */
                         {
                             values[i] = 0x000000FF;
-- 
2.43.0


From a6fdef3a2615a8e43cd50d0800ad6d496c1a70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 13/55] fix: tiff writer reports errors of the final flush

---
 src/utility/imageio/tiff.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 36931a9..55e978b 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -23,7 +23,7 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
         TIFFSetField(fout, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
         TIFFSetField(fout, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB);
         row = (uint8_t*)_TIFFmalloc(TIFFScanlineSize(fout));
-        while(y<height)
+        while(row != NULL && y<height)
         {
             x = 0;
             while(x<width)
@@ -37,8 +37,9 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
                 break;
         }
         _TIFFfree(row);
+        /* TIFFClose does not report errors */
+        retval = y == height && TIFFFlush(fout);
         TIFFClose(fout);
-        retval = y == height;
     }
     return retval;
 }
@@ -92,7 +93,7 @@ char tiff_read(const char* name, uint32_t* values)
         retval &= TIFFGetField(fin, TIFFTAG_SAMPLESPERPIXEL, &channels);
         data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
         /* The first retval is used to ensure channels/width/height are valid */
-        if(retval && (channels == 3 || channels == 4) &&
+        if(retval && data != NULL && (channels == 3 || channels == 4) &&
            TIFFReadRGBAImage(fin, width, height, data, 0))
         {
             int x;
-- 
2.43.0


From 48a0cb930a3d80454134956b8e9b8a35d5b2dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 14/55] fix: negative texture coordinates wrap instead of
 reading outside the texture

---
 src/textures/texture_image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index e3b03b5..d298334 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -62,10 +62,10 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
     float v = hit->uv.y*scale.y+shift.y;
 
     //apply repeating if uv are outside 0-1 range
-    if(u>1.f)
-        u = u-(int)u;
-    if(v>1.f)
-        v = v-(int)v;
+    if(u>1.f || u<0.f)
+        u = u-floorf(u);
+    if(v>1.f || v<0.f)
+        v = v-floorf(v);
 
     TexelUnion res;
     if(unfiltered)
-- 
2.43.0


From 6dd16cdb5ef8792512eb09d6a24c60d9fd87f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 15/55] fix: the coarsest texture level is not interpolated
 with a level past the end

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1c41184..e20af07 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -124,7 +124,7 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
     TexelUnion p0; //retval
     if(chosen<=0.f) //use full size map
         p0 = bilinear(u, v, 0);
-    else if(chosen>maps_no-1) //return the single, most distant pixel
+    else if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else //perform trilinear interpolation
     {
@@ -179,7 +179,7 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
     // shorter axis 0 previously catched in an if
     float chosen = max(0.f, maps_no-1+log2f(shorter_axis));
     TexelUnion p0; //retval
-    if(chosen>maps_no-1) //return the single, most distant pixel
+    if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else
     {
-- 
2.43.0


From 783b2c759fbaf210a13e3f435f42b436c9c90b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 16/55] fix: elliptical filtering wraps texels more than one
 texture away

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index e20af07..dd77b07 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -274,12 +274,12 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     for(int y = v0; y<=v1; y++)
     {
         //wraps texture if ellipse is outside bounds
-        int newy = y<0?side[level]+y:y>side[level]-1?y%side[level]:y;
+        int newy = (y%side[level]+side[level])%side[level];
         const float voff = newy-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
-            int newx = x<0?side[level]+x:x>side[level]-1?x%side[level]:x;
+            int newx = (x%side[level]+side[level])%side[level];
             const float uoff = newx-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
-- 
2.43.0


From 4efa88a8425803ab0b0bbee64835cc6801edfbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 17/55] fix: the exit status tells when the image could not be
 saved

---
 src/renderer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index 5bb612f..5466949 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -139,10 +139,10 @@ int Renderer::render(Scene* s)
 
     Console.log(MESSAGE_IMAGEO, NULL);
     //save the image
-    Renderer::film.save_image();
+    int retval = Renderer::film.save_image()?EXIT_SUCCESS:EXIT_FAILURE;
     Console.log(MESSAGE_BYE, NULL);
 
-    return 0;
+    return retval;
 }
 
 void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
-- 
2.43.0


From 13130fa9ea16476c38abcb97339d2ad700a6adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 18/55] fix: tiff dimensions depend on libtiff, not on libjpeg

---
 src/utility/imageio/imageio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/imageio/imageio.c b/src/utility/imageio/imageio.c
index 5e15257..2e91b12 100644
--- a/src/utility/imageio/imageio.c
+++ b/src/utility/imageio/imageio.c
@@ -76,7 +76,7 @@ char img_dimensions(const char* name, const char* ext,
     else if(strcmp(ext, "png") == 0)
         retval = png_dimensions(name, width, height);
 #endif
-#ifdef JPEG_FOUND
+#ifdef TIFF_FOUND
     else if(strcmp(ext, "tif") == 0 || strcmp(ext, "tiff") == 0)
         retval = tiff_dimensions(name, width, height);
 #endif
-- 
2.43.0


From 4e32ca6b098fd91dd6b2121d0aa024332c4af25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 19/55] fix: textures that cannot be decoded are replaced by
 the default one

---
 src/textures/texture_image.cpp | 44 +++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index d298334..c9c513b 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -12,28 +12,40 @@ TextureImage::TextureImage(const File& src, Vec2& shift, Vec2& scale,
     {
         if(src.readable())
         {
-            int width;
-            int height;
-            img_dimensions(src.absolute_path(), src.extension(),
-                           &width, &height);
-            if(width == height && (height & (height-1)) == 0) //power of 2
+            int width = 0;
+            int height = 0;
+            if(!img_dimensions(src.absolute_path(), src.extension(),
+                               &width, &height))
+            {
+                Console.warning(MESSAGE_TEXTURE_ERROR, src.absolute_path());
+                imagemap = TexLib.get_dflt_map();
+            }
+            else if(width == height && width>0 &&
+                    (height & (height-1)) == 0) //power of 2
             {
                 uint32_t* bgra_data = (uint32_t*)malloc(width*height*sizeof
                         (uint32_t));
-                img_read8(src.absolute_path(), src.extension(), bgra_data);
-                switch(filter)
+                if(img_read8(src.absolute_path(), src.extension(), bgra_data))
+                {
+                    switch(filter)
+                    {
+                        case UNFILTERED:
+                            imagemap = new ImageMapUnfiltered(bgra_data, width);
+                            break;
+                        case TRILINEAR:
+                            imagemap = new ImageMapTrilinear(bgra_data, width);
+                            break;
+                        case EWA:imagemap = new ImageMapEWA(bgra_data, width);
+                            break;
+                    }
+                    TexLib.inherit_map(src.absolute_path(), imagemap);
+                }
+                else
                 {
-                    case UNFILTERED:
-                        imagemap = new ImageMapUnfiltered(bgra_data, width);
-                        break;
-                    case TRILINEAR:
-                        imagemap = new ImageMapTrilinear(bgra_data, width);
-                        break;
-                    case EWA:imagemap = new ImageMapEWA(bgra_data, width);
-                        break;
+                    Console.warning(MESSAGE_TEXTURE_ERROR, src.absolute_path());
+                    imagemap = TexLib.get_dflt_map();
                 }
                 free(bgra_data);
-                TexLib.inherit_map(src.absolute_path(), imagemap);
             }
             else
             {
-- 
2.43.0


From 60daddfbcfeaa9794cf7acb50f6f3a1c35d8a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 20/55] fix: every child file is resolved against the directory
 of the main file

---
 src/parsers/config_driver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ccb2c41..e6fe659 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -70,9 +70,12 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     children.clear();
     for(unsigned int i = 0; i<consolidated_children.size(); i++)
     {
-        File file1 = is_absolute(consolidated_children[i].c_str())?
-                     File(consolidated_children[i].c_str()):
-                     current_dir.append(consolidated_children[i].c_str());
+        //append modifies the object it is called on: work on a copy
+        File file1 = current_dir;
+        if(is_absolute(consolidated_children[i].c_str()))
+            file1 = File(consolidated_children[i].c_str());
+        else
+            file1.append(consolidated_children[i].c_str());
         file = file1.absolute_path();
         if(file1.exists())
         {
-- 
2.43.0


From ea0de868d598a214b519f2526d640a8fb5bc92e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 21/55] fix: error messages match their arguments

---
 src/parsers/config_driver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index e6fe659..1211593 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -84,7 +84,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
             scan_end();
         }
         else
-            Console.severe(MESSAGE_INPUT_ERROR, file.c_str());
+            Console.severe(MESSAGE_INPUT_ERROR, file.c_str(), strerror(ENOENT));
     }
     //free some memory
     consolidated_children.clear();
@@ -182,7 +182,7 @@ void ConfigDriver::error(const yy::location& l, const std::string& m)
         for(unsigned int i = l.begin.column-1-offset; i<end_col-offset; i++)
             under[i] = '~';
         under[end_col-offset] = 0;
-        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n%" GRN "%s" NRM,
+        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n" GRN "%s" NRM,
                          file.c_str(), l.end.line, end_col, m.c_str(), buf,
                          under);
     }
-- 
2.43.0


From 614407112dd0ebc476c436161497c6602ce0566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 22/55] fix: the obj parser terminates on files without a final
 newline

---
 src/parsers/parser_obj.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index fbc5757..28d24e5 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -381,6 +381,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             {
                 feed_buffer(&read_bytes, buffer_ro, fin);
                 buffer = buffer_ro;
+                if(read_bytes<=0) //the last line is not terminated
+                    break;
             }
             else
                 buffer++;
@@ -481,10 +483,8 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD)
-            //    return;
+            if(*read_bytes<=0) //end of file: the token will be empty
+                break;
         }
         else
         {
@@ -501,10 +501,8 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD) //end of file
-            //    break; //break instead of return since I want an ok token
+            if(*read_bytes<=0) //end of file
+                break; //break instead of return since I want an ok token
         }
         else
         {
-- 
2.43.0


From 585f97794b515affa6deb772685d989f1785d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 23/55] fix: the obj parser rejects faces with bad indices
 instead of crashing

---
 src/parsers/parser_obj.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 28d24e5..a5a1919 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -232,6 +232,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     int vert_idx = 0;
                     int text_idx = 0;
                     int norm_idx = 0;
+                    if(*tk_idx == '\0') //spaces at the end of the line
+                        break;
                     vert_idx = (int)strtol(tk_idx, &tk_idx, 10);
                     Vertex res;
                     if(*tk_idx != '\0')
@@ -239,14 +241,15 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         tk_idx++;
                         if(*tk_idx != '/') //v/vt/vn
                             text_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                        tk_idx++;
+                        if(*tk_idx == '/')
+                            tk_idx++;
                         norm_idx = (int)strtol(tk_idx, &tk_idx, 10);
                     }
                     //check indexes consistency
-                    if(vert_idx != 0)
                     {
+                        //differently from the others, this is mandatory
                         int vert_size = (int)vertices.size();
-                        if(vert_idx<0)
+                        if(vert_idx<0 && vert_size+vert_idx>=0)
                             vert_idx = vert_size+vert_idx;
                         else if(vert_idx>0 && vert_idx<=vert_size)
                             vert_idx--;
@@ -262,7 +265,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     if(text_idx != 0)
                     {
                         int text_size = (int)textures.size();
-                        if(text_idx<0)
+                        if(text_idx<0 && text_size+text_idx>=0)
                             text_idx = text_size+text_idx;
                         else if(text_idx>0 && text_idx<=text_size)
                             text_idx--;
@@ -282,7 +285,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     if(norm_idx != 0)
                     {
                         int norm_size = (int)normals.size();
-                        if(norm_idx<0)
+                        if(norm_idx<0 && norm_size+norm_idx>=0)
                             norm_idx = norm_size+norm_idx;
                         else if(norm_idx>0 && norm_idx<=norm_size)
                             norm_idx--;
@@ -308,7 +311,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //     buffer = buffer_ro;
                     // }
                 }
-                if(recreate_normals)
+                if(recreate_normals && face_tmp.size()>2)
                 {
                     //the normal should be created for the entire face
                     //no risk of losing info: if the normal is missing
-- 
2.43.0


From 01bdfc26c2b4abf0112c485f9d88d6c37a5763a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 24/55] fix: objects with more than 255 materials do not
 overflow the material array

---
 src/parsers/parser_obj.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index a5a1919..df6208a 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -160,7 +160,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     if(it == used_materials.end())
                     {
                         const Bsdf* cur_mat = MtlLib.get(token);
-                        if(cur_mat == NULL)
+                        //255 is the maximum number of materials of an object
+                        if(cur_mat == NULL || materials.size()>=255)
                         {
                             //insert as default material
                             used_materials.insert({{token, 0}});
-- 
2.43.0


From 8fcb9887bbc016619e0b73e8042962251a149832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 25/55] fix: the obj parser releases its buffer and its file

---
 src/parsers/parser_obj.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index df6208a..63bc4ed 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -22,15 +22,12 @@ ParserObj::ParserObj()
 
 ParserObj::~ParserObj()
 {
-    if(buffer_ro != NULL)
-    {
-        buffer_ro = NULL;
-        delete buffer_ro;
-    }
+    end_parsing();
 }
 
 void ParserObj::start_parsing(const char* path)
 {
+    end_parsing(); //release the previous file, if any
     ParserObj::path = path;
     lineno = 1;
     face_no = 0; //used to know when nothing was parsed
@@ -51,11 +48,8 @@ void ParserObj::start_parsing(const char* path)
 
 void ParserObj::end_parsing()
 {
-    if(buffer_ro != NULL)
-    {
-        buffer_ro = NULL;
-        delete buffer_ro;
-    }
+    free(buffer_ro);
+    buffer_ro = NULL;
     if(fin != NULL)
     {
         fclose(fin);
-- 
2.43.0


From facc2fa03d490a3d5672a07d0bfa32cc8dba9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 26/55] fix: syntax errors with a long token no longer write
 outside the underline buffer

---
 src/parsers/config_driver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 1211593..460fd60 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -174,14 +174,17 @@ void ConfigDriver::error(const yy::location& l, const std::string& m)
     if(l.begin.column<l.end.column && l.begin.line == l.end.line &&
        l.end.column-l.begin.column<=BUFFER-5) //prev. segfault if token len >buf
     {
-        char buf[128];
+        char buf[128] = {0}; //the last line can be shorter than the buffer
         char under[128];
         int offset = get_line(buf, 128);
-        for(unsigned int i = 0; i<l.begin.column-1-offset; i++)
+        //the shown part of a long line can start after the token beginning
+        int first = clamp((int)l.begin.column-1-offset, 0, 127);
+        int last = clamp((int)end_col-offset, first, 127);
+        for(int i = 0; i<first; i++)
             under[i] = ' ';
-        for(unsigned int i = l.begin.column-1-offset; i<end_col-offset; i++)
+        for(int i = first; i<last; i++)
             under[i] = '~';
-        under[end_col-offset] = 0;
+        under[last] = 0;
         Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n" GRN "%s" NRM,
                          file.c_str(), l.end.line, end_col, m.c_str(), buf,
                          under);
-- 
2.43.0


From d3cdcaf5e257947c871fb5ccabb3b60fedcdb4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 27/55] fix: the far side of a masked sphere does not replace a
 closer hit

---
 src/primitives/sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 6a60ac3..47990e4 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -116,7 +116,7 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
             hit->dpdu = tmp.dpdu;
             hit->dpdv = tmp.dpdv;
         }
-        else if(!std::isnan(sol2))
+        else if(!std::isnan(sol2) && sol2<=*distance)
         {
             //repeat the procedure with second hit, first was invalidated
             hitp = r->apply(sol2);
-- 
2.43.0


From d840245ab462f7da00127178df6ea53fa23f19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 28/55] fix: triangles hand the dv differentials to the mask

---
 src/primitives/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 9416495..f25d693 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -101,7 +101,7 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-    tmp.dv = h->du;
+    tmp.dv = h->dv;
     tmp.differentials = h->differentials;
     if(!mask->is_masked(&tmp))
     {
-- 
2.43.0


From d0c2e2e47ec7f79046cd4bf2547bf2f469e1936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 29/55] fix: hit points start without differentials

---
 src/primitives/hit_point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primitives/hit_point.hpp b/src/primitives/hit_point.hpp
index 1f97c3a..682f7e5 100644
--- a/src/primitives/hit_point.hpp
+++ b/src/primitives/hit_point.hpp
@@ -39,10 +39,10 @@ struct HitPoint
     Vec3 dpdv;
 
     ///Hit asset
-    const Asset* asset_h;
+    const Asset* asset_h = NULL;
 
     ///index of the hit triangle (0 if the asset is not a mesh)
-    unsigned int index;
+    unsigned int index = 0;
 
     ///Mapping coordinate u of the point, used for texture mapping
     Point2 uv;
@@ -54,7 +54,7 @@ struct HitPoint
     Vec2 dv;
 
     //true if the values du and dv are set
-    bool differentials;
+    bool differentials = false;
 };
 
 void calculate_differentials(HitPoint* hp, Ray* rx, Ray* ry);
-- 
2.43.0


From 6767faf2f25c38c70be7c1d12b954ea13c59aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 30/55] fix: assets without thickness cannot be lost while
 splitting the kd-tree

---
 src/accelerators/kdtree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 968e24b..ecd7b75 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -110,7 +110,9 @@ namespace KdHelpers
     //used to sort the splicandidate in the kdtree build
     bool compare_sc(const SplitCandidate s1, const SplitCandidate s2)
     {
-        return s1.pos<s2.pos;
+        //an asset must start before its end, also when it has no thickness
+        return s1.pos<s2.pos || (s1.pos == s2.pos && s1.isLeftSide &&
+                                 !s2.isLeftSide);
     }
 
     //helper structure for kd tree traversal
-- 
2.43.0


From 63f36dae6aad975dc6312a12dfbe68765a23998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 31/55] fix: tiff writer reports a failure to write the last
 row

---
 src/utility/imageio/tiff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 55e978b..0c66dec 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -33,8 +33,9 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
                 row[x*3+2] = (data[y*width+x] & 0xFF000000) >> 24;
                 x++;
             }
-            if(TIFFWriteScanline(fout, row, y++, 0)<0)
+            if(TIFFWriteScanline(fout, row, y, 0)<0)
                 break;
+            y++;
         }
         _TIFFfree(row);
         /* TIFFClose does not report errors */
-- 
2.43.0


From 41f2285b9b20619db0d1f2421a38cdf4e5cc9aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 32/55] fix: tiff reader fails when a part of the image cannot
 be read

---
 src/utility/imageio/tiff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 0c66dec..44680f9 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -95,7 +95,7 @@ char tiff_read(const char* name, uint32_t* values)
         data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
         /* The first retval is used to ensure channels/width/height are valid */
         if(retval && data != NULL && (channels == 3 || channels == 4) &&
-           TIFFReadRGBAImage(fin, width, height, data, 0))
+           TIFFReadRGBAImage(fin, width, height, data, 1))
         {
             int x;
             int y;
-- 
2.43.0


From d3fe3d898ee52a785141b270785104bc0a9623d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:24 +0000
Subject: [PATCH 33/55] fix: assigning a File releases the path it held before

---
 src/utility/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 60dfb90..9adec93 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -275,6 +275,9 @@ bool File::is_file() const
 
 File& File::operator=(const File& old)
 {
+    if(this == &old)
+        return *this;
+    free(File::absolute);
     File::absolute = (char*)malloc(sizeof(char)*(strlen(old.absolute)+1));
     strcpy(absolute, old.absolute);
     //recalculate offsets(since I cannot blindly copy pointers of other classes)
-- 
2.43.0


From 0042850d01a73d8066f184924131e3aaf098bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:24 +0000
Subject: [PATCH 34/55] fix: assigning an Array2D releases the array it held
 before

---
 src/utility/array2D.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/array2D.hpp b/src/utility/array2D.hpp
index 3425f69..beb90f4 100644
--- a/src/utility/array2D.hpp
+++ b/src/utility/array2D.hpp
@@ -204,6 +204,9 @@ public:
     ///Copy-assignment operator
     Array2D& operator=(const Array2D& other)
     {
+        if(this == &other)
+            return *this;
+        free(data);
         blocks_no_side = other.blocks_no_side;
         size_t array_len = blocks_no_side*blocks_no_side*BLOCK_SIDE*BLOCK_SIDE;
         array_len *= sizeof(T);
-- 
2.43.0


From af5c4126fb1c976dc7e4d11bdb060359eca9f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:48 +0000
Subject: [PATCH 35/55] fix: a Bvh never built releases nothing, a rebuilt one
 its old tree

---
 src/accelerators/bvh.cpp | 7 +++++++
 src/accelerators/bvh.hpp | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b0c61dd..b72fec6 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -298,6 +298,12 @@ static uint32_t traverseTree(Triangle* tris, Primitive* p, uint32_t offs,
 
 // <><><><><><><><> Bvh methods <><><><><><><><><><><><><><><><><><><><><><><><>
 
+Bvh::Bvh()
+{
+    Bvh::nodesList = NULL;
+    Bvh::tris = NULL;
+}
+
 Bvh::~Bvh()
 {
     free(nodesList);
@@ -305,6 +311,7 @@ Bvh::~Bvh()
 
 void Bvh::buildTree(Triangle* tris, int len)
 {
+    free(nodesList); //release the previous tree, if any
     Bvh::tris = tris;
     if(len<AAC_DELTA) //small mesh
     {
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 9c092f1..17f5ba7 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -75,6 +75,9 @@ class Bvh
 {
 public:
 
+    ///Default constructor
+    Bvh();
+
     ///Default destructor
     ~Bvh();
 
-- 
2.43.0


From 7680f06487add9affe9f37e5c22e991705c904aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:48 +0000
Subject: [PATCH 36/55] fix: rebuilding the kd-tree replaces the previous one

---
 src/accelerators/kdtree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index ecd7b75..32b6811 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -230,6 +230,7 @@ void KdTree::buildTree()
     Asset** alcopy = (Asset**)malloc(sizeof(Asset*)*KdTree::assets_number);
     memcpy(alcopy, KdTree::assetsList, sizeof(Asset*)*KdTree::assets_number);
     unsigned int a_n = KdTree::assets_number; //assets_number will be set to 0
+    KdTree::nodes_index = 0;//the previous tree, if any, is replaced
     KdTree::assets_number = 0;//and assets will be reinserted in order during
     //building of the kd-tree
 
-- 
2.43.0


From 97b92ab14fdb31e0d005b9f776b36656ec297441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:48 +0000
Subject: [PATCH 37/55] fix: the renderer releases the camera, filter and
 integrator it replaces

---
 src/renderer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index 5466949..4f30e22 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -57,6 +57,8 @@ Renderer::~Renderer()
 
 void Renderer::inherit_camera(Camera* camera)
 {
+    if(Renderer::camera != camera)
+        delete Renderer::camera;
     Renderer::camera = camera;
 }
 
@@ -67,12 +69,16 @@ void Renderer::set_sampler(int sampler)
 
 void Renderer::inherit_filter(Filter* filter)
 {
+    if(Renderer::filter != filter)
+        delete Renderer::filter;
     Renderer::filter = filter;
     Renderer::film.set_filter(filter);
 }
 
 void Renderer::inherit_integrator(LightIntegrator* integrator)
 {
+    if(Renderer::mc_solver != integrator)
+        delete Renderer::mc_solver;
     Renderer::mc_solver = integrator;
 }
 
-- 
2.43.0


From 431bc7fbf06fcdc34d2c8530e862867dce4dc10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:48 +0000
Subject: [PATCH 38/55] fix: lights exceeding the maximum number are released
 with the scene

---
 src/utility/scene.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/scene.cpp b/src/utility/scene.cpp
index f253656..88ae61f 100644
--- a/src/utility/scene.cpp
+++ b/src/utility/scene.cpp
@@ -56,7 +56,11 @@ void Scene::inherit_light(const AreaLight* addme)
         }
     }
     else
+    {
+        //not used, but still owned by the scene
+        assets.insert(std::make_pair(addme->get_id(), addme));
         Console.warning(MESSAGE_MAXLIGHTSNUMBER, _MAX_LIGHTS_);
+    }
 }
 
 unsigned int Scene::size_lights() const
-- 
2.43.0


From 0aa1b361adc17e1c6a5a947a4f67f957dd52b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:49 +0000
Subject: [PATCH 39/55] fix: the material library releases its default material

---
 src/materials/material_library.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/materials/material_library.cpp b/src/materials/material_library.cpp
index 34b3ebd..78337c7 100644
--- a/src/materials/material_library.cpp
+++ b/src/materials/material_library.cpp
@@ -12,6 +12,7 @@ MaterialLibrary::MaterialLibrary()
 MaterialLibrary::~MaterialLibrary()
 {
     MaterialLibrary::clear();
+    delete default_material;
 }
 
 void MaterialLibrary::add_inherit(const std::string& name, Bsdf* material)
-- 
2.43.0


From 1ae4e53277e48357459f09b62df90798c383918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 40/55] fix: the arrays of sphere and duplicate meshes are
 released

---
 src/parsers/config_driver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 460fd60..02eab71 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -568,6 +568,8 @@ void ConfigDriver::parse_and_allocate_obj(const char* obj_file)
         {
             Console.warning(MESSAGE_DUPLICATE_SHAPE, name.c_str());
             delete m;
+            free(insertme.materials);
+            free(insertme.association);
         }
         m = new Mesh(1);
     }
@@ -582,6 +584,9 @@ void ConfigDriver::build_meshes()
         MeshObject mesh_o;
         MeshWorld mesh_w = deferred_meshes.back();
         deferred_meshes.pop_back();
+        //copied by the asset
+        const Bsdf* sphere_material = MtlLib.get_default();
+        unsigned char sphere_association = 0;
         std::unordered_map<std::string, MeshObject>::const_iterator mesh_i;
 
         //differentiate between sdl or mesh
@@ -608,11 +613,9 @@ void ConfigDriver::build_meshes()
             //sdl that will always stays in the scene
             //construct the MeshObject (which is the parsed .obj) in place
             mesh_o.mesh = default_sphere;
-            mesh_o.materials = (const Bsdf**)malloc(sizeof(const Bsdf*));
-            mesh_o.materials[0] = MtlLib.get_default();
+            mesh_o.materials = &sphere_material;
             mesh_o.materials_len = 1;
-            mesh_o.association = (unsigned char*)malloc(1);
-            mesh_o.association[0] = 0;
+            mesh_o.association = &sphere_association;
         }
 
         Matrix4 transform;
-- 
2.43.0


From 2028e640d32bc407644743848d0293bb2c1dd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 41/55] fix: an integrator is released by the driver unless the
 renderer has it

---
 src/parsers/config_driver.cpp | 6 ++++++
 src/parsers/config_driver.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 02eab71..9ce0a5e 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -42,6 +42,11 @@ ConfigDriver::ConfigDriver()
     tex_shift = Vec2(0.f);
 }
 
+ConfigDriver::~ConfigDriver()
+{
+    delete integrator; //NULL if the renderer inherited it
+}
+
 Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
 {
     Renderer* r = NULL;
@@ -63,6 +68,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     r->inherit_camera(build_camera());
     r->inherit_filter(build_filter());
     r->inherit_integrator(integrator);
+    integrator = NULL; //owned by the renderer
 
     //load children files
     //avoid recursive children
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 43a9523..a171647 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -232,7 +232,7 @@ public:
     ConfigDriver();
 
     ///Default destructor
-    virtual ~ConfigDriver() = default;
+    virtual ~ConfigDriver();
 
     /**
      *  \brief Parse the file specified as parameter
-- 
2.43.0


From 0de5650ec83c5134a698bb6d0db125423a244f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:41 +0000
Subject: [PATCH 42/55] fix: offset rays of the orthographic camera one pixel
 away

The offsets were lengths in camera space added to raster coordinates, so the
rays of create_ray(sample, ray, rx, ry) were one pixel away only for images
with a shorter side of two pixels (2/side pixels away otherwise).
---
 src/cameras/camera_orthographic.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/cameras/camera_orthographic.cpp b/src/cameras/camera_orthographic.cpp
index 219c1ba..ac8ecaa 100644
--- a/src/cameras/camera_orthographic.cpp
+++ b/src/cameras/camera_orthographic.cpp
@@ -58,20 +58,16 @@ CameraOrthographic::CameraOrthographic(const Point3* pos, const Point3* target,
     Matrix4 raster2screen(values);
     raster2world *= screen2camera;
     raster2world *= raster2screen;
-    Matrix4 raster2camera;
-    raster2camera.set_identity();
-    raster2camera *= screen2camera;
-    raster2camera *= raster2screen;
-    dx = raster2camera*Vec3(1, 0, 0);
-    dy = raster2camera*Vec3(0, -1, 0);
+    dx = raster2world*Vec3(1, 0, 0);
+    dy = raster2world*Vec3(0, 1, 0);
 }
 
 void CameraOrthographic::create_ray(const Sample* spl, Ray* ray, Ray* rx,
                                     Ray* ry) const
 {
     ray->origin = raster2world*Point3(spl->posx, spl->posy, 0);
-    rx->origin = raster2world*Point3(spl->posx+dx.x, spl->posy+dx.y, dx.z);
-    ry->origin = raster2world*Point3(spl->posx+dy.x, spl->posy+dy.y, dy.z);
+    rx->origin = ray->origin+dx;
+    ry->origin = ray->origin+dy;
     ray->direction = camera2world*Vec3(0, 0, 1);
     rx->direction = ray->direction;
     ry->direction = ray->direction;
-- 
2.43.0


From 232eeca2a8a301256c13c355b35f58cecaf744ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:29 +0000
Subject: [PATCH 43/55] fix: the field of view of the input file is in degrees

---
 src/parsers/config_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 9ce0a5e..96f424a 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -252,7 +252,7 @@ Camera* ConfigDriver::build_camera()
         case SPECTRE_CAMERA_PERSPECTIVE:
         default:
             camera = new CameraPerspective(&camera_pos, &camera_tar, &camera_up,
-                                           width, height, fov);
+                                           width, height, radians(fov));
             break;
     }
     return camera;
-- 
2.43.0


From 2647ce93acf99f60dfb60f3663dc73b39ce27579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:29 +0000
Subject: [PATCH 44/55] fix: the rotations of the input file are in degrees

---
 src/parsers/config_driver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 96f424a..a7b50f6 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -632,9 +632,9 @@ void ConfigDriver::build_meshes()
         Matrix4 rotz_matrix;
         Matrix4 scale_matrix;
         position_matrix.set_translation(mesh_w.position);
-        rotx_matrix.set_rotate_x(mesh_w.rotation.x);
-        roty_matrix.set_rotate_y(mesh_w.rotation.y);
-        rotz_matrix.set_rotate_z(mesh_w.rotation.z);
+        rotx_matrix.set_rotate_x(radians(mesh_w.rotation.x));
+        roty_matrix.set_rotate_y(radians(mesh_w.rotation.y));
+        rotz_matrix.set_rotate_z(radians(mesh_w.rotation.z));
         rotation_matrix = rotz_matrix*roty_matrix*rotx_matrix;
         scale_matrix.set_scale(mesh_w.scale);
         //watchout the order!!!
-- 
2.43.0


From a3c83c51ce39d647d9d55bceeb26c548afed4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:54 +0000
Subject: [PATCH 45/55] fix: matrices of small objects are inverted

---
 src/geometry/matrix4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/matrix4.cpp b/src/geometry/matrix4.cpp
index 0ed5f94..25468b6 100644
--- a/src/geometry/matrix4.cpp
+++ b/src/geometry/matrix4.cpp
@@ -409,7 +409,7 @@ bool Matrix4::inverse(Matrix4* output) const
     det = Matrix4::m00*inv[0]+Matrix4::m01*inv[4]
           +Matrix4::m02*inv[8]+Matrix4::m03*inv[12];
 
-    if(flt_equal(det, 0.0f))
+    if(det == 0.0f)
         return false;
 
     det = 1.0f/det;
-- 
2.43.0


From 0b69407ff21e289be57df32bac91839034962754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:35 +0000
Subject: [PATCH 46/55] fix: settings of chained input files reach the renderer

---
 src/parsers/config_driver.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index a7b50f6..2a60102 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -57,18 +57,6 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     yy::ConfigParser parser(*this);
     parser.parse();
     scan_end();
-    check_resolution();
-    check_spp();
-#ifdef DEBUG //single threaded
-    r = new Renderer(width, height, spp, output.c_str(), 1);
-#else //maximum threads
-    r = new Renderer(width,height,spp,output.c_str());
-#endif
-    r->set_sampler(sampler_type);
-    r->inherit_camera(build_camera());
-    r->inherit_filter(build_filter());
-    r->inherit_integrator(integrator);
-    integrator = NULL; //owned by the renderer
 
     //load children files
     //avoid recursive children
@@ -92,6 +80,20 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
         else
             Console.severe(MESSAGE_INPUT_ERROR, file.c_str(), strerror(ENOENT));
     }
+    //every file has been read: the settings are final
+    check_resolution();
+    check_spp();
+#ifdef DEBUG //single threaded
+    r = new Renderer(width, height, spp, output.c_str(), 1);
+#else //maximum threads
+    r = new Renderer(width,height,spp,output.c_str());
+#endif
+    r->set_sampler(sampler_type);
+    r->inherit_camera(build_camera());
+    r->inherit_filter(build_filter());
+    r->inherit_integrator(integrator);
+    integrator = NULL; //owned by the renderer
+
     //free some memory
     consolidated_children.clear();
     consolidated_children.resize(0);
-- 
2.43.0


From 9880cbfd4af47e7e4629fa5a4f5533c2e561537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:45 +0000
Subject: [PATCH 47/55] fix: total internal reflection is divided by the cosine
 like every other reflection

---
 src/materials/reflection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index af453d4..d48ee7c 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -100,8 +100,8 @@ Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
         float rperp = (etaicosi-etatcost)/(etaicosi+etatcost);
         float rpar = (etatcosi-etaicost)/(etatcosi+etaicost);
         eval = (rpar*rpar+rperp*rperp)/2.f;
-        eval /= fabsf(wo->z);
     }
+    eval /= fabsf(wo->z);
     return eval;
 }
 
-- 
2.43.0


From d5be2b75871b50f36716360959773bdcfba2e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:45 +0000
Subject: [PATCH 48/55] fix: Oren-Nayar keeps the sign of the sine of the
 azimuths

---
 src/materials/oren_nayar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/oren_nayar.cpp b/src/materials/oren_nayar.cpp
index 2e2d22c..bf70c5a 100644
--- a/src/materials/oren_nayar.cpp
+++ b/src/materials/oren_nayar.cpp
@@ -37,8 +37,8 @@ Spectrum OrenNayar::value(const Vec3* wout, const Vec3* wincident) const
         float cosphiin, cosphiout, sinphiin, sinphiout;
         cosphiin = clamp(wincident->x/sinthetain, -1.f, 1.f);
         cosphiout = clamp(wout->x/sinthetaout, -1.f, 1.f);
-        sinphiin = max(0.f, sqrtf(1.f-cosphiin*cosphiin));
-        sinphiout = max(0.f, sqrtf(1.f-cosphiout*cosphiout));
+        sinphiin = clamp(wincident->y/sinthetain, -1.f, 1.f);
+        sinphiout = clamp(wout->y/sinthetaout, -1.f, 1.f);
         maxcos = max(0.0f, cosphiin*cosphiout+sinphiin*sinphiout);
     }
     else
-- 
2.43.0


From 4427de1cdf0a3a69cb270285ccdbdaa2df15ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:45 +0000
Subject: [PATCH 49/55] fix: every lobe of a sampled material is coloured by
 its own texture

---
 src/materials/multi_bsdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index dd73f5d..190067c 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -121,7 +121,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
             if(bdfs[i]->matches(flags))//add contribution only if matches
             {
                 retval += bdfs[i]->value(&wo_shading, &wi_shading)*
-                          diffuse[chosen]->map(h);
+                          diffuse[i]->map(h);
                 *pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
             }
         }
-- 
2.43.0


From 4fc7910c4ab455ba7d10e4f7ca4277cec5f183b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:45 +0000
Subject: [PATCH 50/55] fix: the triangle whose share of the area was drawn is
 the one sampled

---
 src/primitives/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 6f250c8..af1cc95 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -213,5 +213,5 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
     //sample the triangle
     sample01 = inverse_lerp(extSample-densities[mid], 0,
                             densities[mid+1]-densities[mid]);
-    tris[mid].sample_point(sample01, r1, NULL, p, n);
+    tris[mid+1].sample_point(sample01, r1, NULL, p, n);
 }
-- 
2.43.0


From d172412f3ed7e25f82e1863af7c624b75361ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:04 +0000
Subject: [PATCH 51/55] fix: area lights measured distances and angles in
 object space

---
 src/lights/area_light.cpp | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 1b54aa1..8bdb14a 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -59,24 +59,24 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
                                   Vec3* wi, float* pdf, float* distance) const
 {
     Normal normal;
-    Point3 light_point; //object space
-    Ray ray;
-    ray.origin = worldToObj**pos;
+    Point3 light_point;
 
     //generate random origin point of the emitted radiance in the surface of the
     //underlying model of the light
     AreaLight::model->sample_point(r0, r1, cd, &light_point, &normal);
+    light_point = AreaLight::objToWorld*light_point;
 
     //in the next steps a ray originating from the current_pos and pointing to
     //the sampled point is tested against the light. This because if the sampled
-    //point is on the backface, a point facing the current_pos is selected
-    ray.direction = light_point-ray.origin;
+    //point is on the backface, a point facing the current_pos is selected.
+    //everything is in world space, as the area used in the pdf
+    Ray ray(*pos, light_point-*pos);
     ray.direction.normalize();
     HitPoint hit;
     *distance = FLT_MAX;
     //will always succeed
 //    bool res=
-    AreaLight::model->intersect(&ray, distance, &hit, &mask);
+    AreaLight::intersect(&ray, distance, &hit);
     //erase the next if after all the intersections are tried
     //TODO: now this should never happen and has been commented. Tried
     //blackbox testing for something like 1 hour, but maybe for newer
@@ -87,12 +87,9 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
 //        *pdf = 0;
 //        return SPECTRUM_BLACK;
 //    }
-    light_point = ray.apply(*distance);
-    normal = hit.normal_h; //object space
+    normal = hit.normal_h;
     *wi = ray.direction;
-    *pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-           (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-           (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
+    *pdf = (*distance)*(*distance);
     *pdf /= (absdot(normal, -(*wi))*AreaLight::area);
     if(std::isinf(*pdf))
     {
@@ -101,34 +98,25 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
         return SPECTRUM_BLACK;
     }
 
-    //convert wi to world space
     Spectrum retval;
     if(dot(normal, -(*wi))>0) //cos between ray and hit point normal > 0
         retval = AreaLight::c;
     else
         retval = SPECTRUM_BLACK;
-
-    *wi = AreaLight::objToWorld**wi;
-    wi->normalize();
     return retval;
 }
 
 float AreaLight::pdf(const Point3* p, const Vec3* wi) const
 {
-    Ray ray;
-    ray.origin = AreaLight::worldToObj**p;
-    ray.direction = AreaLight::worldToObj**wi;
+    Ray ray(*p, *wi);
     HitPoint hit;
     float distance = FLT_MAX;
     //here success is not guaranteed, maybe the wi vector is random
     //need to check if the intersection can happen
-    bool res = AreaLight::model->intersect(&ray, &distance, &hit, &mask);
+    bool res = AreaLight::intersect(&ray, &distance, &hit);
     if(!res)
         return 0;
-    Point3 light_point = ray.apply(distance);
-    float pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-                (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-                (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
+    float pdf = distance*distance;
     pdf /= (absdot(hit.normal_h, -(ray.direction))*AreaLight::area);
     return pdf;
 }
-- 
2.43.0


From 417cc1cada7115273833e35f28fa07ffe1213e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:04 +0000
Subject: [PATCH 52/55] fix: the only triangle of a mesh light is not searched
 for among its neighbours

---
 src/primitives/mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index af1cc95..33c319b 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -181,8 +181,8 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
     float sample01;
 
     //limit cases, they generate infinite loops
-    //first triangle of the array
-    if(extSample<densities[0])
+    //first triangle of the array, or the only one
+    if(count == 1 || extSample<densities[0])
     {
         sample01 = inverse_lerp(extSample, 0, densities[0]);
         tris[0].sample_point(sample01, r1, NULL, p, n);
-- 
2.43.0


From da6127342d88c10cb9e9ac0149c0496d597218ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:31 +0000
Subject: [PATCH 53/55] fix: a texture's scale was applied to the wrong
 differentials

dudy is a difference of u and dvdx one of v: they are scaled by scale.x and
scale.y respectively, as the coordinates they belong to.
---
 src/textures/texture_image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index c9c513b..e6147da 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -90,8 +90,8 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
         {
             //scale dudx dvdx dudy dvdy
             float dudx = hit->du.x*scale.x;
-            float dudy = hit->du.y*scale.y;
-            float dvdx = hit->dv.x*scale.x;
+            float dudy = hit->du.y*scale.x;
+            float dvdx = hit->dv.x*scale.y;
             float dvdy = hit->dv.y*scale.y;
             res = imagemap->filter(u, v, dudx, dvdx, dudy, dvdy);
         }
-- 
2.43.0


From 88f32091c95141d4e94eb4073b9a61f873184be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:31 +0000
Subject: [PATCH 54/55] fix: a stray operator in the ellipse of the EWA filter

dvdx*dvdx*+dvdy*dvdy multiplied the two terms instead of adding them: an
ellipse with an axis along v was filtered as if it had none.
---
 src/textures/image_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index dd77b07..62d7947 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -247,7 +247,7 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     dvdy *= side[level];
 
     //calulate ellipse coefficients
-    float a = dvdx*dvdx*+dvdy*dvdy+1.f;
+    float a = dvdx*dvdx+dvdy*dvdy+1.f;
     float b = -2.f*(dudx*dvdx+dudy*dvdy);
     float c = dudx*dudx+dudy*dudy+1.f;
     const float invf = 1.f/(a*c-b*b*.25f);
-- 
2.43.0


From 7e228ce910d3d13623979d1c7d43bf4975680934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:31 +0000
Subject: [PATCH 55/55] fix: the EWA filter lost the texels beyond the border

The distance from the center of the ellipse was that of the wrapped texel,
on the other side of the texture, instead of that of its repetition.
---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 62d7947..c17d4f8 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -275,12 +275,12 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     {
         //wraps texture if ellipse is outside bounds
         int newy = (y%side[level]+side[level])%side[level];
-        const float voff = newy-v;
+        const float voff = y-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
             int newx = (x%side[level]+side[level])%side[level];
-            const float uoff = newx-u;
+            const float uoff = x-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
             {
-- 
2.43.0

