exec(open('/tmp/seedw/mk3.py').read().split("D='api")[0])
X='ezxml/src/private/private/'
trial('o-e02-onepi','E02',(X+'PugiElementIterImpl.cpp','            while( !isEnd && isPi )','            if( !isEnd && isPi )'))
trial('o-e02-prefixattr','E02',(X+'PugiElement.cpp','''            if( iter->getName() == it->name() )''','''            const std::string current{ it->name() };
            if( iter->getName().compare( 0, current.size(), current ) == 0 )'''))
trial('o-e02-aftertail','E02',(X+'pugixml.cpp','''			node->next_sibling->prev_sibling_c = child;
		else
			parent->first_child->prev_sibling_c = child;
''','''			node->next_sibling->prev_sibling_c = child;
		else if (parent->first_child == node)
			node->prev_sibling_c = child;
'''))
trial('o-e02-attrprev','E02',(X+'pugixml.cpp','''			attr->next_attribute->prev_attribute_c = attr->prev_attribute_c;
		else
			node->first_attribute->prev_attribute_c = attr->prev_attribute_c;
''','''			attr->next_attribute->prev_attribute_c = attr->prev_attribute_c;
		else if (attr->prev_attribute_c != node->first_attribute)
			node->first_attribute->prev_attribute_c = attr->prev_attribute_c;
'''))
trial('o-e02-insitu1','E02',(X+'pugixml.cpp','''if ((header & header_mask) == 0) return target_length >= length;''','''if ((header & header_mask) == 0) return target_length + 1 >= length;'''))
trial('o-e02-reuse','E02',(X+'pugixml.cpp','''return target_length >= length && (target_length < reuse_threshold''','''return target_length + 1 >= length && (target_length < reuse_threshold'''))
trial('o-e02-freed','E02',(X+'pugixml.cpp','''			if (page == _root) page->busy_size = _busy_size;

			assert''','''			assert'''))
trial('o-e02-clonepi','E02',(X+'PugiElement.cpp','''        if( nextSibling.type() == pugi::node_pi )
        {
            return XElementPtr{ new PugiElement{ nextSibling, myXDoc.lock() } };
        }
''','''        if( nextSibling.type() == pugi::node_pi )
        {
            return PugiElement{ nextSibling, myXDoc.lock() }.getNextSibling();
        }
'''))
