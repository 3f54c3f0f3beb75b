title = 'Shapes handed between extraction, solver and report keep geometry and net'
statement = '''Converting KLayout polygons and regions into the messages passed between the steps of the extraction keeps every polygon once and in order,
with its exact area (holes joined with the hull) in database units and its net; converting points, boxes, polygons and regions back gives KLayout
shapes with exactly these coordinates, carrying the net as property "net" exactly if there is one. So a region that makes the round trip covers
exactly the area it covered before, for every net.'''
quantifier = 'all points, boxes, polygons (any number of points and holes), regions, nets'
why = 'Shapes with holes, empty regions, unnamed shapes, many polygons of different nets and coordinates of any size occur in layouts only.'
files = ['klayout_pex/klayout/shapes_pb2_converter.py']
mechanism = [('from message', 'ShapesConverter.klayout_point/klayout_polygon/klayout_region/klayout_box'),
             ('to message', 'ShapesConverter.klayout_point_to_pb/klayout_polygon_to_pb/klayout_region_to_pb')]
observe = ['kdb.Region / kdb.Polygon / kdb.Box returned', 'shapes_pb2.Region filled']
note = '''All seven functions proved for arbitrary shapes; that KLayout's resolved_holes() keeps the area is assumed and exercised by the concrete runs.'''
