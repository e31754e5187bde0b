BOUND = ("Exhaustive on the specification up to a depth (small constants), simulation beyond; "
         "every behaviour is executed by the real code. Trusted: TLC, the projection made by the "
         "driver. Bounded: the code is only known to conform on the behaviours executed.")
CMD = ["gsp/object.py", "gsp/io/command.py", "gsp/io/convert.py", "gsp/io/json.py", "gsp/__init__.py"]

prop("C01", "Object identity is unique and stable",
     "At any time two distinct registered objects never have the same identifier, and every registered "
     "object is found under its own identifier and only there, even after its identifier has been "
     "reassigned. An object created locally never takes an identifier already in use by a registered "
     "object or used by a command stream that has been loaded, whatever was created, replayed or loaded before; an object "
     "created by replaying a command has the identifier the command states. Recorded commands never "
     "share a command identifier.",
     ["histories"], "every interleaving of creations, replays, loads of foreign streams, identifier "
     "reassignments, registry resets and switches of object recording",
     "Tests create a handful of objects in a fresh process; collisions need ids that come from a stream "
     "and lie ahead of the local counter.",
     ["gsp/object.py", "gsp/io/command.py", "gsp/io/json.py"],
     [("OID counter skips identifiers in use", "gsp/object.py:OID, Object.__init__"),
      ("id setter moves the registration", "gsp/object.py:Object.id"),
      ("replay assigns the stream's id", "gsp/io/command.py:Command.execute")],
     [("Object.objects", "registry: id -> object", "gsp/object.py")],
     ["Object.objects", "obj.id", "Command.id"], BOUND, module="Protocol")

prop("C02", "Every protocol call is recorded, completely and exactly once",
     "While recording is on, each call of a protocol command on an object appends exactly one command to "
     "the active queue, under the class and the method name (or the alias) of the call, carrying the object's "
     "identifier and every parameter once: the values given by position or by name, the default value of "
     "the others, and objects given as references to their identifier. The effect on the object and the value returned to the caller do "
     "not depend on recording; when recording is off, the queue is read-only, or the call opted out, "
     "nothing is recorded, and a call that raises records nothing.",
     ["histories", "inputs"], "every sequence of creations and calls, with any mix of positional, named and "
     "default arguments, object or plain, in any recording mode",
     "Tests record a few calls with one argument pattern each.",
     ["gsp/io/command.py"], [("command decorator", "gsp/io/command.py:command")],
     [("queue.commands", "recorded commands", "gsp/io/command.py:CommandQueue")],
     ["CommandQueue contents after each call"], BOUND, module="Protocol")

prop("C03", "Typed admission and deferred conversion of parameters",
     "A command is recorded only if each of its parameters has one of its declared types (or a subtype), "
     "is None, or can be converted to one of them by a registered converter; otherwise the call is reported as a ValueError and "
     "no queue changes. A value that already has a declared type is never converted; otherwise it is "
     "converted with the converter registered for its most specific type towards the last convertible "
     "declared type. Conversions are not performed when the call is recorded but each time the command is replayed or saved, "
     "exactly once per converted parameter.",
     ["inputs", "histories"], "every combination of declared types, value types (including subtypes), and registered converters, "
     "over histories that record, replay and save",
     "Tests convert one or two types in isolation.",
     ["gsp/io/command.py", "gsp/io/convert.py", "gsp/io/json.py"],
     [("type check and converter lookup", "gsp/io/command.py:command"),
      ("Converter", "gsp/io/convert.py")], (), ["queue contents, converter calls"], BOUND, module="Protocol")

prop("C04", "Command queues are isolated, named singletons",
     "Asking for a queue by name always gives the same queue; a new queue becomes the active one and asking "
     "for an existing queue changes nothing. Commands go to the active queue only, in call order; emptying, "
     "locking, running, saving or loading a queue never changes the content or the read-only mode of another one. A "
     "read-only queue keeps its content when commands are issued, and running a queue, successfully or not, "
     "leaves its content, its read-only mode and the active queue as they were.",
     ["histories", "fault_sequences"], "every sequence of queue operations on several queues, including replays that fail midway",
     "Tests use the default queue.",
     ["gsp/io/command.py", "gsp/io/json.py"], [("NamedSingleton", "gsp/io/command.py"), ("CommandQueue.run / push", "gsp/io/command.py")],
     [("CommandQueue.active", "active queue", "gsp/io/command.py")], ["queues"], BOUND, module="Protocol")

prop("C05", "Replaying a queue reproduces the recorded objects",
     "Running a queue executes its commands in order against the classes of the given backend module: each creation makes an object of the "
     "backend's class registered under the recorded identifier, each call is made on the object registered under the "
     "recorded identifier, and references resolve to the objects registered under theirs. The objects end in the same state "
     "as if the calls had been made directly. A replay records nothing in any queue, and a command that fails or "
     "refers to an unknown object stops the replay with an error after the effects of the commands before it, "
     "and no effect of those after it.",
     ["histories", "fault_sequences"], "every recorded history, run any number of times, with any backend, with failures at any command",
     "Tests run a queue or two of a few commands.",
     ["gsp/io/command.py", "gsp/object.py"], [("Command.execute", "gsp/io/command.py"), ("CommandQueue.run", "gsp/io/command.py")],
     (), ["objects, registry and queues after a run"], BOUND, module="Protocol")

prop("C06", "Saving and loading a command stream loses nothing",
     "A saved stream holds the commands of the queue it was saved from (the active queue by default), in order, with the same "
     "objects, methods and parameter values, each pending conversion being replaced by its result. Loading it into a queue replaces the "
     "content of that queue only, and running the loaded queue gives the same objects as running the "
     "queue it was saved from. Saving does not change the queue, and saving a loaded stream writes the same commands.",
     ["histories"], "every recorded history with plain values, references and pending conversions, saved and loaded any number of times, through both "
     "entry points and into any queue",
     "Tests save and load one small stream.",
     ["gsp/io/json.py", "gsp/__init__.py", "gsp/io/command.py"], [("json.dump / load", "gsp/io/json.py"), ("gsp.save / load", "gsp/__init__.py")],
     (), ["saved files, queues"], BOUND, module="Protocol")

prop("C07", "A saved stream refers only to objects it has created before",
     "In the stream saved from a queue that creates every object before using it, each reference to an object is "
     "preceded by the command that creates it, including the objects that come to exist only when the stream is saved because a "
     "parameter is converted, whether recording is on or off. Such a stream can be run in a fresh process without an unresolved reference.",
     ["histories"], "every recorded history including parameters converted to objects, in both recording modes",
     "Tests save streams without conversions that create objects.",
     ["gsp/io/json.py", "gsp/io/command.py"], [("dump interleaves just-in-time creations", "gsp/io/json.py:dump")],
     (), ["saved files"], BOUND, module="Protocol")

GLM = "gsp_matplotlib/glm/"
prop("C10", "A tracker mirrors its array",
     "For an array tracked by a tracker, after any modification made through the array or through any view of it "
     "(slices, steps, negative steps, columns, transposes, fields, views of views; item assignments and all in-place operators), the bytes "
     "rebuilt from the signals sent to the tracker are exactly the memory of the array. Reads, copies and modifications of copies "
     "signal nothing, and values are those numpy would give.",
     ["histories", "inputs"], "every array shape, view chain and sequence of modifications",
     "Tests check a few fixed slices of small arrays.",
     [GLM + "ndarray/tracked.py", GLM + "tracked_array.py"], [("tracked.__setitem__, in-place operators, views", GLM + "ndarray/tracked.py")],
     (), ["signals received by the tracker, array content"], BOUND, module="Tracked")
prop("C11", "Modified regions are exact",
     "Each modification of a tracked array signals one contiguous byte range, relative to the start of the root array, that covers all "
     "the modified memory and is the smallest such range. Without a tracker, the accumulated dirty "
     "region is the smallest range covering all the modifications made since it was last cleared. "
     "A new array is dirty as a whole: its first modification signals it all.",
     ["histories", "inputs"], "every array shape, view chain and sequence of modifications and clearings",
     "Tests check a few fixed slices of small arrays.",
     [GLM + "ndarray/tracked.py"], [("tracked extents", GLM + "ndarray/tracked.py")],
     (), ["signals (offset, size), dirty region"], BOUND, module="Tracked")
prop("C12", "Components are read and written by name",
     "Reading or writing components of vectors by name (x, y, z, w or r, g, b, a, alone or combined in any order and mixed) gives the named "
     "components of each vector of the array or view, in the order of the names, for any number of vectors; writing accepts a scalar, a value per component, a value "
     "per vector, a value per vector and component, or other components (including its own, so that components can be swapped), changes "
     "nothing else, and a wrong number of values or an unknown name is an error that changes nothing.",
     ["inputs", "histories"], "every vector size, number of vectors, view, name combination and form of value",
     "Tests use one number of vectors and a few names.",
     [GLM + "ndarray/swizzle.py", GLM + "ndarray/vectors.py"], [("swizzle", GLM + "ndarray/swizzle.py")],
     (), ["array content"], BOUND, module="Vectors")
prop("C13", "Ragged lists partition their data",
     "A vectorized list made from lists, arrays, or data and sizes holds each base element in exactly one item, in order; a partition "
     "that does not match the data is refused with a ValueError. Reading an item, slice (any step) or list of "
     "items gives the elements of these items in order, writing changes these elements only, iteration visits every item "
     "once, and len, size, itemsize agree with the items. Keys out of range raise an IndexError and change nothing.",
     ["inputs", "histories"], "every partition (including empty items), element width, key and sequence of writes",
     "Tests create one or two partitions and write one item.",
     [GLM + "ndarray/ragged.py", GLM + "vlist.py"], [("ragged", GLM + "ndarray/ragged.py")],
     (), ["items and data"], BOUND, module="Ragged")
prop("C14", "Vector creation and conversion follow the homogeneous convention",
     "vecN and matN constructors give arrays of the named type and shape. to_vecN converts vectors of 2, 3 or 4 components by dropping "
     "components, adding z = 0 and w = 1, and dividing by w when going down from 4 components; it cuts flat data into vectors, refuses data that do not "
     "fit, keeps the dtype unless another is given, and never shares memory with nor changes its source. "
     "as_vecN reinterprets the same memory unless a dtype is asked for.",
     ["inputs"], "every source shape, size, source and target dtype",
     "Tests convert one array per function.",
     [GLM + "vec234.py", GLM + "mat234.py", GLM + "ndarray/vectors.py", GLM + "ndarray/matrices.py"],
     [("to_vecN / as_vecN", GLM + "vec234.py")], (), ["returned arrays"], BOUND, module="Vectors")

TR = "gsp/transform/"
prop("C15", "Transforms chain, bind and copy without side effects",
     "Calling a transform with another one gives a new transform applying the other first; calling it with a buffer, array or constant gives a "
     "new transform bound to it; copying gives an independent transform. Neither operand is changed, later changes made to "
     "a transform through its setters never show in the transforms derived from it before nor conversely, every derived transform refers to "
     "the original one as its base, whether a transform is bound is reported exactly (a chain is bound by its last element, an "
     "operator by all its operands), binding a bound transform is a ValueError, and an Out transform can be called with nothing.",
     ["histories"], "every sequence of creations, calls, copies, arithmetic and setters on shared transforms",
     "Tests chain two generic transforms once.",
     [TR + "transform.py", TR + "operator.py", TR + "out.py", TR + "accessor.py", TR + "colormap.py"],
     [("__call__, copy, bound, base", TR + "transform.py")], (), ["base, next, buffer, bound, left, right of every transform held"],
     BOUND, module="Transform")
prop("C16", "Arithmetic on transforms is the arithmetic of their values",
     "An expression made with +, -, *, / and unary minus from transforms, buffers and numbers, in any order and nesting, evaluates to the "
     "value of the same expression on the evaluated operands (with numpy's broadcasting), in the order of the operands, and building "
     "it does not change the operands.",
     ["inputs", "histories"], "every expression tree over accessors, out variables, measures, buffers and constants",
     "Tests only check the operands of one operator of each kind and never evaluate.",
     [TR + "operator.py", TR + "transform.py", TR + "measure.py"], [("Operator.evaluate", TR + "operator.py")], (), ["evaluate()"],
     BOUND, module="Transform")
prop("C17", "Units convert to normalized coordinates",
     "A measure in pixels, points (1/72 in), inches, millimeters, centimeters, meters or kilometers evaluates to the length in "
     "pixels at the dpi in use, divided by the size of the canvas (and multiplied by the extent of the viewport limits for a viewport), along x for a number and "
     "for the first component, along y for the second component, and zero for the third one; bound to a number, a tuple, a buffer or a chained "
     "transform; with a given size instead of the size of the canvas when there is one. Without any dpi it is an error.",
     ["inputs"], "every unit, bound value, dpi, size and viewport, alone or in expressions",
     "Tests only check that measures can be created.",
     [TR + "measure.py"], [("Measure.evaluate", TR + "measure.py")], (), ["evaluate()"], BOUND, module="Transform")
prop("C18", "Accessors, out variables and colormaps select and map the right values",
     "An accessor gives the named field of a structured buffer or the named component of a buffer of vectors; an Out transform gives the "
     "variable of the visual, or the components named after the dot in the order of the names; a colormap maps each value to the "
     "color of its relative position between vmin and vmax (the bounds of the values when not given), clamped. They apply to what they are bound to or to what "
     "they are chained with. An unknown key, an absent variable or an unbound accessor is an error.",
     ["inputs"], "every accessor, key, buffer shape, variable, and bounds of the colormap, alone or chained",
     "Tests only check that accessors can be created.",
     [TR + "accessor.py", TR + "out.py", TR + "colormap.py"], [("evaluate", TR + "accessor.py")], (), ["evaluate()"],
     BOUND, module="Transform")

MV = "gsp_matplotlib/visual/"
VIS = [MV + n + ".py" for n in ("pixels", "points", "markers", "segments", "paths", "polygons")]
prop("C09", "A saved scene shows the same picture when it is replayed",
     "Saving the recorded commands of a scene as a stream, loading it and running it with the matplotlib backend in "
     "another registry makes a canvas of the same size with the same viewports at the same places, the same limits, and, on each viewport, "
     "the same visuals with the same items in the same drawing order, at the same positions, with the same colors, widths, sizes and "
     "markers, whatever the types of the arguments (arrays, tracked arrays, lists, transforms, measures) used to build the scene.",
     ["inputs", "histories"], "every scene: kinds of visuals, attributes, matrices, viewports, and changes of the data before saving",
     "Tests replay a few commands on stub classes; none compares the replayed scene with the original.",
     ["gsp/io/json.py", "gsp/io/command.py", "gsp/__init__.py", "gsp_matplotlib/__init__.py"] + VIS,
     [("save / load / run", "gsp/io/json.py"), ("converters", "gsp_matplotlib/__init__.py")],
     [("figure", "axes, collections", "gsp_matplotlib/core/canvas.py")], ["artists of the replayed figure"], BOUND, module="Scene")
prop("C19", "Viewports follow their extents, through resizes",
     "A viewport occupies the part of the canvas given by its extents: an integer is a number of pixels, a float a fraction of the canvas, a "
     "measure is converted along the matching axis and may be mixed with fractions by arithmetic. After any sequence of resizes of the "
     "canvas, its place, its size and its limits are those of the current size of the canvas; resized viewports keep the aspect of their "
     "content, and a measure used in a position keeps its length in pixels.",
     ["inputs", "histories"], "every combination of extents and every sequence of resizes",
     "Tests compare a few images at one size; none resizes a canvas.",
     ["gsp_matplotlib/core/viewport.py", "gsp_matplotlib/core/canvas.py", TR + "measure.py"],
     [("_update", "gsp_matplotlib/core/viewport.py:Viewport._update")], [("axes", "position and limits", "gsp_matplotlib/core/viewport.py")],
     ["position, size, limits of the axes"], BOUND, module="Scene")
prop("C20", "Items are projected, drawn farthest first and keep their attributes",
     "Rendering a visual draws each of its items exactly once, at the position of its vertices projected by the model, then the view, then the "
     "projection matrix (with the division by w), from the farthest to the nearest (items of several vertices at their mean depth), each with "
     "its own color, width, size and marker, whether they are given for all items, one per item, or by a "
     "transform of what the visual computes (such as a colormap of the depth).",
     ["inputs"], "every kind of visual, number and arrangement of vertices, matrices, forms of the attributes",
     "Tests compare a few images with fixed data.", VIS + ["gsp/visual/visual.py"],
     [("render", MV + "*.py")], [("collections", "artists of each visual and viewport", MV)], ["offsets, paths, colors, widths, sizes"],
     BOUND, module="Scene")
prop("C21", "Rendering is idempotent and isolated",
     "A visual rendered several times on a viewport is there once and shows its current data with the last matrices given; rendering a visual on a viewport, changing the "
     "data of a visual, or a rendering that fails, does not change what other viewports and visuals show; a visual rendered on "
     "several viewports keeps its matrices on each of them, also when the canvas is resized; rendering never changes the arrays it has "
     "been given, nor whether arrays are tracked, even when it fails.",
     ["histories"], "every interleaving of renderings, changes of data and attributes, failures and resizes, over several visuals and viewports",
     "Tests render each visual once on one viewport.", VIS + ["gsp/visual/visual.py", MV + "untracked.py"],
     [("matrices by viewport", "gsp/visual/visual.py:Visual.render"), ("untracked", MV + "untracked.py")],
     [("collections", "artists of each visual and viewport", MV)], ["artists of every viewport, source arrays, tracking"], BOUND, module="Scene")
prop("C22", "Paths and polygons group their vertices as their indices say",
     "Indices given as a number make groups of that many consecutive vertices; given as an array or buffer of sizes, consecutive groups "
     "of these sizes; given as lists of indices (python lists, arrays, or a List), groups of the designated vertices. Each group is drawn exactly once, "
     "with its vertices in order.",
     ["inputs"], "every partition of the vertices in the three forms", "Tests draw a few regular paths.",
     [MV + "paths.py", MV + "polygons.py", "gsp_matplotlib/core/list.py", "gsp/core/list.py"], [("render", MV + "paths.py")], (),
     ["vertices of the drawn paths"], BOUND, module="Scene")

prop("C08", "Generic classes and backend classes record the same protocol",
     "The same script, written with the generic classes (gsp) or with those of a backend (gsp_matplotlib), is accepted or refused at the same calls "
     "and saves the same stream: one command for each constructor and method of the protocol called by the script, in order, with the name of "
     "the protocol ('core.Canvas', 'Points/render'...), the object, and every declared parameter exactly once, whether given by position, by name or by "
     "default; references are to objects, arrays become buffers (count, type and current bytes), lists, colors, vectors, matrices and "
     "enumerations are written as the declared types require; arguments of undeclared types are refused and leave no command.",
     ["inputs", "histories"], "every class and method of the protocol, every way to pass the arguments, every admissible or refused type",
     "Tests record a few commands of stub classes; none compares a backend with the generic classes.",
     ["gsp/core/", "gsp/visual/", "gsp/transform/", "gsp_matplotlib/core/", "gsp_matplotlib/visual/", "gsp/io/command.py", "gsp/io/json.py"],
     [("@command signatures", "gsp/core, gsp/visual, gsp/transform, gsp_matplotlib"), ("converters", "gsp/__init__.py, gsp_matplotlib/__init__.py")],
     [("queue", "commands recorded", "gsp/io/command.py")], ["gsp.io.json.dump"], BOUND, module="Stream")
prop("C23", "A saved stream builds the same objects on a backend",
     "A stream saved by a script, written with generic classes or with those of a backend, is run by the backend without error and builds the objects of the "
     "script: the same identifiers, the same classes, canvases of the same size, buffers with the same content, and visuals and operators whose "
     "parameters have the values of the script at the time it was saved, references leading to the rebuilt objects.",
     ["inputs", "histories"], "every class and method of the protocol, every admissible type of argument, arrays modified before saving",
     "Tests replay a few commands on stub classes.",
     ["gsp/io/json.py", "gsp/io/command.py", "gsp_matplotlib/__init__.py", "gsp_matplotlib/core/", "gsp_matplotlib/visual/"],
     [("load / run", "gsp/io/json.py, gsp/io/command.py")], [("registry", "objects by id", "gsp/object.py")],
     ["objects built by CommandQueue.run"], BOUND, module="Stream")

prop("C24", "Buffers and lists hold and follow their data",
     "A buffer of the backend has its count, its type and the bytes it was given (bytes, base64 text or a memory view), read as items of its type; writing bytes at an "
     "offset changes these bytes and no other, for any sequence of writes, and is refused with an IndexError when it does not fit, the buffer being unchanged; a "
     "buffer made from memory of the script, an array or a tracked array (of any layout) shows the current content of this memory. A list gives the "
     "items of its buffer grouped by its sizes. A stream saved at any time rebuilds buffers and lists with the content they have.",
     ["inputs", "histories"], "every type (numbers of both byte orders, vectors, structures with padding), source, layout and sequence of writes through the buffer or the memory",
     "Tests create one buffer and never update it.",
     ["gsp_matplotlib/core/buffer.py", "gsp_matplotlib/core/list.py", "gsp_matplotlib/__init__.py", "gsp/__init__.py", "gsp/io/json.py"],
     [("set_data", "gsp_matplotlib/core/buffer.py"), ("Tracker", "gsp_matplotlib/__init__.py"), ("__iter__", "gsp_matplotlib/core/list.py")],
     [("_data, _array", "bytes and items of a buffer", "gsp_matplotlib/core/buffer.py")], ["np.asarray(buffer)", "items of a list", "rebuilt objects"], BOUND, module="Buffers")
prop("C25", "Conversions are found by type, the closest first",
     "A converter registered from some source types to a destination serves these sources only, until it is unregistered; registering a pair twice is refused with a TypeError "
     "and changes nothing. The converter of a value is the one of its type, or else the converter from any type ('*'), or else the one of the closest of its bases in the order of "
     "inheritance; types may be given by name or as classes; converting gives what this converter makes of the value, and is refused with a ValueError when there is none.",
     ["histories", "inputs"], "every sequence of registrations and removals (of one or several sources), every value and class of a hierarchy",
     "Tests register one converter.", ["gsp/io/convert.py"],
     [("register, unregister, get_converter, convert", "gsp/io/convert.py")], [("converters", "(source, destination) -> function", "gsp/io/convert.py")],
     ["converters", "get_converter", "convert"], BOUND, module="Converters")
prop("C26", "The text of a type describes it completely",
     "The text of a data type (as in saved streams), for numbers, vectors, matrices and structures with any padding, is 'base:name:shape' for each field, and reading "
     "it gives a type with the same names, bases, shapes, offsets and size; a text that is not well formed is refused with a ValueError.",
     ["inputs"], "every base, shape, number of fields and padding", "Tests convert a few types without padding.", ["gsp/io/convert.py"],
     [("numpy_dtype_to_str, numpy_str_to_dtype", "gsp/io/convert.py")], (), ["convert(dtype, 'str')", "convert(str, 'dtype')"], BOUND, module="Converters")

prop("C27", "SVG paths draw what they describe",
     "Reading an SVG path gives the lines, quadratic and cubic curves, arcs and closures its commands describe, in order: absolute or relative coordinates, repeated "
     "commands without their letter (lines after a move), horizontal and vertical lines, smooth curves whose first control point is the reflection of the previous one "
     "only after a curve of the same kind, arcs of ellipses with the given radii (enlarged when too small), rotation, size and direction, closures going back to the start of "
     "the subpath; any separator and notation of numbers; scaled by one factor so that the coordinates span [-1/2, 1/2], y being turned upward.",
     ["inputs"], "every sequence of the twenty commands, notation of numbers and separators; arcs of quarters, halves and three quarters of ellipses",
     "Nothing tests the parser but a few marker glyphs.", ["gsp/core/svg.py", "gsp/core/types.py"],
     [("svg_to_path", "gsp/core/svg.py")], [("current, start, control point", "pen of the parser", "gsp/core/svg.py:_parse_path")], ["vertices and codes of the path"], BOUND, module="Svg")
prop("C28", "Matrices place, look and project as they say",
     "translate and scale move and scale points; xrotate, yrotate, zrotate and rotate turn them around the axis by the angle, counter-clockwise; ortho and frustum map the box "
     "or pyramid they are given (perspective: by its angle and aspect) to the cube [-1, 1], the near side to -1; viewport maps this cube to its rectangle and depth; lookat "
     "puts the eye at the origin, the center on the negative z axis and up upward; align turns its first vector onto the second; camera composes these with its clamped arguments. "
     "Matrices have the dtype asked for, and are transposed when asked.",
     ["inputs"], "every function, angles, axes, boxes and vectors with rational coordinates, dtype and transposition", "Only the examples use them, with one set of values.",
     ["gsp_matplotlib/glm/glm.py"], [("functions", "gsp_matplotlib/glm/glm.py")], (), ["entries of the matrices"],
     BOUND + " The invariant of the specification states what each matrix does to points, so that its entries are not a copy of the code's.", module="Glm")
prop("C29", "Meshes are read, fitted and built properly",
     "center and fit center vertices, fit giving its largest extent the size of [-1, 1] with one factor; clamp, normalize and frontback (front triangles are counter-clockwise, and the others are back) treat "
     "each element independently. Reading a wavefront file gives its fitted vertices and its faces, with or without texture and normal indices, comments and other statements. The predefined shapes (cube, "
     "tetrahedron, octahedron, dodecahedron, icosahedron, spheres of any radius, slices and stacks) have the expected vertices, on a sphere, and their faces form a closed surface.",
     ["inputs"], "clouds of vertices, files in several styles, all shapes and sizes of spheres", "No test covers them.",
     ["gsp_matplotlib/glm/glm.py", "gsp_matplotlib/glm/shapes.py"], [("mesh, fit, center", "gsp_matplotlib/glm/glm.py"), ("shapes", "gsp_matplotlib/glm/shapes.py")], (),
     ["vertices and faces"], BOUND, module="Glm")
prop("C30", "The trackball turns the scene with the mouse",
     "After any sequence of drags and settings of its angles, the model of the trackball is a rotation: a drag on the ball composes it with the smallest rotation that brings the point under the mouse from the "
     "start to the end of the drag, dragging back restores the model (also outside of the ball, and after any number of drags), an empty drag changes nothing; the angles theta and phi "
     "given or set are the ones read, and setting one of them keeps the other.",
     ["histories"], "every sequence of drags, settings of angles, in all quadrants", "No test covers it; errors of composition show after several drags only.",
     ["gsp_matplotlib/glm/trackball.py"], [("drag_to, theta, phi", "gsp_matplotlib/glm/trackball.py")], [("_rotation", "quaternion of the model", "gsp_matplotlib/glm/trackball.py")],
     ["model, theta, phi"], BOUND, module="Glm")

prop("C31", "The image of a canvas shows what has been rendered",
     "The image of a canvas has the current size of the canvas in pixels. Each of its pixels shows the last created viewport that covers it: the last of the items (polygons, paths, points, markers) rendered in that viewport that covers it there, the "
     "color of the viewport when there is none (which of a path and another shape is above is not specified, and pixels at the edge of an item may be a mixture); nothing of a visual is shown outside of its viewport, and where there is no viewport the image is transparent. An image saved to a file is the same image, and making "
     "an image changes nothing of what is shown.",
     ["histories"], "every layout of viewports, every history of renderings and resizes of the canvas before an image is made", "No test reads an image back; errors show for some layouts, and after a resize only.",
     ["gsp_matplotlib/core/canvas.py", "gsp_matplotlib/core/viewport.py", "gsp_matplotlib/visual/polygons.py", "gsp_matplotlib/visual/paths.py", "gsp_matplotlib/visual/points.py", "gsp_matplotlib/visual/markers.py"], [("Canvas.render", "gsp_matplotlib/core/canvas.py"), ("Viewport.__init__", "gsp_matplotlib/core/viewport.py")],
     [("render, set_size", "size and image of the figure", "gsp_matplotlib/core/canvas.py"), ("__init__, resize", "position, order and color of the axes", "gsp_matplotlib/core/viewport.py")],
     ["image"], BOUND, module="Scene")
