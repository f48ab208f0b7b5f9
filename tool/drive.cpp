// entry points that compose members of the project the way its users do, so that they are analysed together;
// compiled without access control, never run
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"

namespace drive
{
void perspective(const Point3* pos, const Point3* target, const Vec3* up, int width, int height, float fov,
                 const Sample* s, Ray* r, Ray* rx, Ray* ry, Ray* single)
{
    CameraPerspective cam(pos, target, up, width, height, fov);
    cam.create_ray(s, r, rx, ry);
    cam.create_single_ray(s, &(single->origin), &(single->direction));
}

void orthographic(const Point3* pos, const Point3* target, const Vec3* up, int width, int height, float,
                  const Sample* s, Ray* r, Ray* rx, Ray* ry, Ray* single)
{
    CameraOrthographic cam(pos, target, up, width, height);
    cam.create_ray(s, r, rx, ry);
    cam.create_single_ray(s, &(single->origin), &(single->direction));
}

void panoramic(const Point3* pos, const Point3* target, const Vec3* up, int width, int height, float,
               const Sample* s, Ray* r, Ray* rx, Ray* ry, Ray* single)
{
    Camera360 cam(pos, target, up, width, height);
    cam.create_ray(s, r, rx, ry);
    cam.create_single_ray(s, &(single->origin), &(single->direction));
}
}
