// A stand-in for the parts of OpenGL that a renderer of triangles uses. It keeps the state of
// buffers, vertex arrays and programs, and records the triangles that reach the screen.
#pragma once

#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace gl
{
typedef unsigned int   GLuint;
typedef int            GLint;
typedef int            GLsizei;
typedef unsigned int   GLenum;
typedef unsigned int   GLbitfield;
typedef unsigned char  GLboolean;
typedef unsigned char  GLubyte;
typedef unsigned short GLushort;
typedef float          GLfloat;
typedef char           GLchar;
typedef void           GLvoid;
typedef std::ptrdiff_t GLsizeiptr;
typedef std::ptrdiff_t GLintptr;

enum : GLenum
{
    GL_BLEND                = 0x0BE2,
    GL_SRC_ALPHA            = 0x0302,
    GL_ONE_MINUS_SRC_ALPHA  = 0x0303,
    GL_ARRAY_BUFFER         = 0x8892,
    GL_ELEMENT_ARRAY_BUFFER = 0x8893,
    GL_STREAM_DRAW          = 0x88E0,
    GL_STATIC_DRAW          = 0x88E4,
    GL_DYNAMIC_DRAW         = 0x88E8,
    GL_FLOAT                = 0x1406,
    GL_UNSIGNED_BYTE        = 0x1401,
    GL_UNSIGNED_SHORT       = 0x1403,
    GL_UNSIGNED_INT         = 0x1405,
    GL_TRIANGLES            = 0x0004,
    GL_VERTEX_SHADER        = 0x8B31,
    GL_FRAGMENT_SHADER      = 0x8B30,
    GL_COMPILE_STATUS       = 0x8B81,
    GL_LINK_STATUS          = 0x8B82,
    GL_INFO_LOG_LENGTH      = 0x8B84
};
static const GLbitfield GL_COLOR_BUFFER_BIT = 0x4000;
static const GLboolean  GL_FALSE = 0, GL_TRUE = 1;

struct Triangle
{
    float        pos[3][2]; // before the camera
    std::uint8_t color[3][4];
    float        camera[9];
};

struct Attribute
{
    bool        enabled = false;
    GLint       size    = 0;
    GLenum      type    = 0;
    GLboolean   normalized = 0;
    GLsizei     stride     = 0;
    std::size_t offset     = 0;
    GLuint      buffer     = 0;
};

struct VertexArray
{
    std::array<Attribute, 8> attributes{};
    GLuint                   elements = 0;
};

struct State
{
    std::map<GLuint, std::vector<unsigned char>> buffers{};
    std::map<GLuint, VertexArray>                arrays{};
    std::map<GLuint, int>                        programs{}; // linked or not
    GLuint array = 0, arrayBuffer = 0, program = 0, next = 1;
    float  camera[9]   = {};
    bool   hasCamera   = false;
    bool   blend       = false;
    float  clearColor[4] = {};
    int    viewport[4]   = {};

    std::vector<Triangle> triangles{};
    int                   draws = 0, clears = 0;
    std::string           error{};

    void fail(const std::string& e)
    {
        if (error.empty())
            error = e;
    }
};

inline State state{};

inline void glEnable(GLenum what) { state.blend = state.blend || what == GL_BLEND; }
inline void glBlendFunc(GLenum, GLenum) {}

inline GLuint glCreateShader(GLenum) { return state.next++; }
inline void   glShaderSource(GLuint, GLsizei, const GLchar* const*, const GLint*) {}
inline void   glCompileShader(GLuint) {}
inline void   glGetShaderiv(GLuint, GLenum what, GLint* p) { *p = what == GL_COMPILE_STATUS ? 1 : 0; }
inline void   glGetShaderInfoLog(GLuint, GLsizei, GLsizei*, GLchar*) {}
inline void   glDeleteShader(GLuint) {}
inline GLuint glCreateProgram()
{
    state.programs[state.next] = 0;
    return state.next++;
}
inline void glAttachShader(GLuint p, GLuint) { ++state.programs[p]; }
inline void glDetachShader(GLuint, GLuint) {}
inline void glLinkProgram(GLuint p)
{
    if (state.programs[p] < 2)
        state.fail("a program without its shaders is linked");
}
inline void  glGetProgramiv(GLuint, GLenum what, GLint* p) { *p = what == GL_LINK_STATUS ? 1 : 0; }
inline void  glGetProgramInfoLog(GLuint, GLsizei, GLsizei*, GLchar*) {}
inline void  glDeleteProgram(GLuint p) { state.programs.erase(p); }
inline void  glUseProgram(GLuint p) { state.program = p; }
inline GLint glGetUniformLocation(GLuint, const GLchar*) { return 7; }
inline void  glUniformMatrix3fv(GLint where, GLsizei n, GLboolean transpose, const GLfloat* m)
{
    if (where != 7 || n != 1)
        state.fail("the camera goes to another uniform");
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            state.camera[3 * i + j] = transpose ? m[3 * i + j] : m[3 * j + i];
    state.hasCamera = true;
}

inline void glGenVertexArrays(GLsizei n, GLuint* p)
{
    while (n-- > 0)
    {
        state.arrays[state.next] = {};
        *p++                     = state.next++;
    }
}
inline void glGenBuffers(GLsizei n, GLuint* p)
{
    while (n-- > 0)
    {
        state.buffers[state.next] = {};
        *p++                      = state.next++;
    }
}
inline void glDeleteVertexArrays(GLsizei n, const GLuint* p)
{
    while (n-- > 0)
        state.arrays.erase(*p++);
}
inline void glDeleteBuffers(GLsizei n, const GLuint* p)
{
    while (n-- > 0)
        state.buffers.erase(*p++);
}
inline void glBindVertexArray(GLuint a)
{
    if (a != 0 && !state.arrays.count(a))
        state.fail("a vertex array that does not exist is bound");
    state.array = a;
}
inline void glBindBuffer(GLenum where, GLuint b)
{
    if (b != 0 && !state.buffers.count(b))
        state.fail("a buffer that does not exist is bound");
    if (where == GL_ARRAY_BUFFER)
        state.arrayBuffer = b;
    else
        state.arrays[state.array].elements = b;
}
inline void glBufferData(GLenum where, GLsizeiptr size, const void* data, GLenum)
{
    GLuint b = where == GL_ARRAY_BUFFER ? state.arrayBuffer : state.arrays[state.array].elements;
    if (!state.buffers.count(b))
        return state.fail("data goes to a buffer that does not exist");
    auto* p          = static_cast<const unsigned char*>(data);
    state.buffers[b] = size == 0 ? std::vector<unsigned char>{} : std::vector<unsigned char>(p, p + size);
}
inline void glEnableVertexAttribArray(GLuint i) { state.arrays[state.array].attributes[i].enabled = true; }
inline void glVertexAttribPointer(GLuint i, GLint size, GLenum type, GLboolean normalized, GLsizei stride, const void* offset)
{
    Attribute& a = state.arrays[state.array].attributes[i];
    a.size       = size;
    a.type       = type;
    a.normalized = normalized;
    a.stride     = stride;
    a.offset     = (std::size_t)offset;
    a.buffer     = state.arrayBuffer;
}
inline void glDrawElements(GLenum mode, GLsizei n, GLenum type, const void* offset)
{
    ++state.draws;
    if (n == 0)
        return;
    if (mode != GL_TRIANGLES || n % 3 != 0)
        return state.fail("only whole triangles are drawn");
    if (!state.programs.count(state.program) || !state.hasCamera)
        return state.fail("triangles are drawn without a program or a camera");
    VertexArray& v = state.arrays[state.array];
    if (state.array == 0)
        return state.fail("triangles are drawn without a vertex array");
    auto& elements = state.buffers[v.elements];
    auto& pos      = v.attributes[0];
    auto& col      = v.attributes[1];
    if (!pos.enabled || !col.enabled || pos.size != 2 || pos.type != GL_FLOAT || col.size != 4 || col.type != GL_UNSIGNED_BYTE || !col.normalized)
        return state.fail("the attributes of vertices are not a position and a color");
    std::size_t width = type == GL_UNSIGNED_SHORT ? 2 : type == GL_UNSIGNED_INT ? 4 : 1;
    std::size_t start = (std::size_t)offset;
    if (start + width * n > elements.size())
        return state.fail("indices are read past their end");
    for (GLsizei t = 0; t < n; t += 3)
    {
        Triangle tri;
        std::memcpy(tri.camera, state.camera, sizeof tri.camera);
        for (int k = 0; k < 3; ++k)
        {
            std::uint32_t i = 0;
            std::memcpy(&i, &elements[start + width * (t + k)], width);
            auto read = [&](const Attribute& a, void* to, std::size_t bytes, std::size_t tight) {
                auto&       data = state.buffers[a.buffer];
                std::size_t at   = a.offset + (a.stride ? a.stride : tight) * i;
                if (at + bytes > data.size())
                    return state.fail("vertices are read past their end");
                std::memcpy(to, &data[at], bytes);
            };
            read(pos, tri.pos[k], 8, 8);
            read(col, tri.color[k], 4, 4);
        }
        state.triangles.push_back(tri);
    }
}
inline void glClearColor(GLfloat r, GLfloat g, GLfloat b, GLfloat a)
{
    float c[4] = {r, g, b, a};
    std::memcpy(state.clearColor, c, sizeof c);
}
inline void glClear(GLbitfield b)
{
    if (b & GL_COLOR_BUFFER_BIT)
    {
        ++state.clears;
        state.triangles.clear();
    }
}
inline void glViewport(GLint x, GLint y, GLsizei w, GLsizei h)
{
    int v[4] = {x, y, w, h};
    std::memcpy(state.viewport, v, sizeof v);
}
} // namespace gl
