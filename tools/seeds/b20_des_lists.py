PROPERTY = "C19"
EDITS = [("gdal/nitf_des_accessor.py", 'result.extend(des_list.findall(f"./des[@name=\'{des_name}\']"))', 'result = result or des_list.findall(f"./des[@name=\'{des_name}\']")')]
NEEDS = "segments of one name in more than one list of the metadata"
BREAKS = "only the segments of the first list that has any are returned"
DEMO = '''
from aws.osml.gdal import NITFDESAccessor

docs = [f"<des_list><des name='XML_DATA_CONTENT'><field name='DESVER' value='{i}'/></des><des name='XML_DATA_CONTENT'><field name='DESVER' value='9'/></des></des_list>" for i in range(3)]
a = NITFDESAccessor(docs)
assert [a.parse_field_value(s, "DESVER", int) for s in a.get_segments_by_name("XML_DATA_CONTENT")] == [0, 9, 1, 9, 2, 9]
'''
